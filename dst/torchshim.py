"""Stand-in for the part of torch that the inference runtime uses, on numpy buffers: views share storage as in torch, every operation
is a point at which the simulator may refuse an allocation or stop in the middle of writing the result.
install() puts it into sys.modules as torch and torch.nn.functional.
"""
import math
import re
import sys
import types

import numpy as np


class dtype:
    def __init__(self, name, np_):
        self.name = name
        self.np = np.dtype(np_)
        self.is_floating_point = self.np.kind == 'f'

    def __repr__(self):
        return 'torch.' + self.name


DT = {n: dtype(n, k) for n, k in (('float32', 'f4'), ('float64', 'f8'), ('float16', 'f2'), ('int64', 'i8'), ('int32', 'i4'), ('int16', 'i2'),
                                  ('int8', 'i1'), ('uint8', 'u1'), ('bool', '?'))}
OF = {d.np: d for d in DT.values()}
f32 = DT['float32']


class Size(tuple):
    def numel(self):
        return int(np.prod(self)) if self else 1


class Faults:
    """Refused allocations and operations that die half-way."""

    def __init__(self):
        self.clear()
        self.count = 0
        self.fired = []
        self.poison = 0xCD

    def clear(self):
        self.left = None
        self.kind = None
        self.resized = 0

    def arm(self, kind, nth):
        """kind: 'alloc' (nth operation has no memory for its result), 'torn' (nth write into a result stops half-way)"""
        self.kind, self.left = kind, nth

    def point(self, kind):
        self.count += 1
        if self.left is not None and self.kind == kind:
            self.left -= 1
            if self.left < 0:
                self.left = None
                self.fired.append(kind)
                return True
        return False


FAULTS = Faults()


def alloc(a):
    if FAULTS.point('alloc'):
        raise RuntimeError('[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: not enough memory: you tried to allocate %d bytes.' % a.nbytes)
    return Tensor(a)


def store(dst, src):
    """dst[...] = src, possibly dying half-way."""
    if FAULTS.point('torn'):
        flat = np.broadcast_to(src, dst.shape)
        idx = list(np.ndindex(*dst.shape))
        for i in idx[:len(idx) // 2]:
            dst[i] = flat[i]
        raise RuntimeError('simulated failure in a kernel')
    with np.errstate(all='ignore'):
        dst[...] = src


def unwrap(x):
    return x.a if isinstance(x, Tensor) else x


def promote(*xs):
    """Result type: category of the operands first, tensors before 0-d tensors before numbers."""
    best = None
    rank = {'b': 0, 'u': 1, 'i': 1, 'f': 2}
    for level in (0, 1, 2):
        part = []
        for x in xs:
            if isinstance(x, Tensor):
                if (level == 0 and x.a.ndim) or (level == 1 and not x.a.ndim):
                    part.append(x.a.dtype)
            elif level == 2:
                part.append(np.dtype('?') if isinstance(x, bool) else np.dtype('i8') if isinstance(x, int) else np.dtype('f4'))
        if not part:
            continue
        t = part[0]
        for p in part[1:]:
            if rank[p.kind] == rank[t.kind]:
                t = np.promote_types(t, p)
            elif rank[p.kind] > rank[t.kind]:
                t = p
        if best is None or rank[t.kind] > rank[best.kind]:
            best = t
    return best


def shape_error(e):
    return RuntimeError('The size of the tensors must match: %s' % e)


def elementwise(f, xs, out=None, want=None, cast=None):
    t = cast or promote(*xs)
    ys = [np.asarray(unwrap(x)).astype(t, copy=False) for x in xs]
    try:
        with np.errstate(all='ignore'):
            r = np.asarray(f(*ys))
    except ValueError as e:
        raise shape_error(e) from None
    r = r.astype(want or t, copy=False)
    return finish(r, out)


def finish(r, out):
    r = np.asarray(r)
    if out is None:
        return alloc(r)
    if r.dtype.kind == 'f' and out.a.dtype.kind in 'iub' or r.dtype.kind in 'iu' and out.a.dtype.kind == 'b':
        raise RuntimeError("result type %s can't be cast to the desired output type %s" % (r.dtype, out.a.dtype))
    if r.shape != out.a.shape:
        # torch resizes a result of the wrong size (with a warning): it is no longer the memory the caller meant
        FAULTS.resized += 1
        out.a = np.empty(r.shape, out.a.dtype)
    store(out.a, r)
    return out


def dims(a):
    a = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
    for x in a:
        if not isinstance(x, (int, np.integer)):
            raise TypeError('expected int sizes, got %s' % type(x).__name__)
    return tuple(int(x) for x in a)


def axis(d, n):
    if not -n <= d < max(n, 1):
        raise IndexError('Dimension out of range (expected to be in range of [%d, %d], but got %d)' % (-n, n - 1, d))
    return d % n if n else 0


def index(i):
    if isinstance(i, tuple):
        return tuple(index(x) for x in i)
    if isinstance(i, slice) and i.step is not None and i.step <= 0:
        raise ValueError('step must be greater than zero')
    return unwrap(i)


GAPS = []


def gap(name, exc=AttributeError):
    """Something of torch's that this substitute does not have was asked for: what follows says nothing about the code under test."""
    GAPS.append(name)
    raise exc('the torch substitute has no ' + name)


def missing(owner):
    def get(name):
        if name.startswith('__') or name in ('cuda', 'xpu', 'mps', 'compile', '_dynamo'):
            raise AttributeError(name)
        gap(owner + '.' + name)
    return get


class Tensor:
    __array_priority__ = 100

    def __getattr__(self, name):
        if name.startswith('_') or name == 'a':
            raise AttributeError(name)
        gap('Tensor.' + name)

    def __init__(self, a):
        self.a = a if isinstance(a, np.ndarray) else np.asarray(a)

    # meta
    @property
    def shape(self):
        return Size(self.a.shape)

    @property
    def dtype(self):
        return OF[self.a.dtype]

    @property
    def device(self):
        return 'cpu'

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def T(self):
        return Tensor(self.a.T)

    def dim(self):
        return self.a.ndim

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def numel(self):
        return int(self.a.size)

    def element_size(self):
        return self.a.dtype.itemsize

    def is_contiguous(self):
        return self.a.flags.c_contiguous

    def data_ptr(self):
        return self.a.__array_interface__['data'][0]

    def __len__(self):
        if not self.a.ndim:
            raise TypeError('len() of a 0-d tensor')
        return self.a.shape[0]

    def __repr__(self):
        return 'tensor(%r)' % (self.a,)

    # views
    def view(self, *s, **k):
        dt = k.get('dtype') or (s[0] if s and isinstance(s[0], dtype) else None)
        if dt is not None:
            if self.a.ndim == 0 and dt.np.itemsize != self.a.dtype.itemsize:
                raise RuntimeError('self.dim() cannot be 0 to view as a type of another size')
            n = self.a.shape[-1] * self.a.dtype.itemsize if self.a.ndim else 0
            if n % dt.np.itemsize or self.data_ptr() % dt.np.itemsize:
                raise RuntimeError('storage_offset() and sizes must be divisible by %d to view as %r' % (dt.np.itemsize, dt))
            return Tensor(self.a.view(dt.np))
        s = dims(s)
        try:
            r = self.a.view()
            r = np.reshape(r, s, copy=False)
        except (ValueError, AttributeError):
            raise RuntimeError("view size is not compatible with input tensor's size and stride") from None
        return Tensor(r)

    def reshape(self, *s):
        s = dims(s)
        try:
            r = self.a.reshape(s)
        except ValueError:
            raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(s), self.a.size)) from None
        return Tensor(r)

    def flatten(self, *a):
        return Tensor(self.a.reshape(-1))

    def permute(self, *p):
        p = dims(p)
        if len(p) != self.a.ndim:
            raise RuntimeError('permute(sparse_coo): number of dimensions in the tensor input does not match')
        return Tensor(self.a.transpose([axis(d, self.a.ndim) for d in p]))

    def transpose(self, i, j):
        return Tensor(self.a.swapaxes(axis(i, self.a.ndim), axis(j, self.a.ndim)))

    def contiguous(self):
        return self if self.a.flags.c_contiguous else alloc(np.array(self.a, order='C'))

    def squeeze(self, dim=None):
        n = self.a.ndim
        d = range(n) if dim is None else [axis(x, n) for x in (dim if isinstance(dim, (tuple, list)) else (dim,))]
        return Tensor(self.a.squeeze(axis=tuple(i for i in d if self.a.shape[i] == 1)))

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(self.a, axis(d, self.a.ndim + 1)))

    def expand(self, *s):
        s = dims(s)
        n = len(s) - self.a.ndim
        if n < 0:
            raise RuntimeError('expand: the number of sizes provided must be greater or equal to the number of dimensions')
        t = tuple(self.a.shape[i - n] if x == -1 else x for i, x in enumerate(s))
        try:
            return Tensor(np.broadcast_to(self.a, t))
        except ValueError as e:
            raise shape_error(e) from None

    def repeat(self, *s):
        s = dims(s)
        if len(s) < self.a.ndim:
            raise RuntimeError('Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
        return alloc(np.tile(self.a, s))

    def repeat_interleave(self, n, dim=None):
        return alloc(np.repeat(self.a, n, axis=dim))

    def __getitem__(self, i):
        r = self.a[index(i)]
        return Tensor(r)

    def __setitem__(self, i, v):
        d = self.a[index(i)]
        if isinstance(d, np.ndarray) and np.shares_memory(d, self.a) or d.size == 0:
            try:
                np.broadcast_to(unwrap(v), d.shape)
            except ValueError as e:
                raise shape_error(e) from None
            store(d, unwrap(v))
        else:
            self.a[index(i)] = unwrap(v)

    # conversions
    def to(self, *a, **k):
        dt = k.get('dtype')
        for x in a:
            if isinstance(x, dtype):
                dt = x
        if dt is None or dt.np == self.a.dtype:
            return self
        with np.errstate(all='ignore'):
            return alloc(self.a.astype(dt.np))

    def cpu(self):
        return self

    def detach(self):
        return self

    def clone(self):
        return alloc(self.a.copy())

    def numpy(self):
        return self.a

    def tolist(self):
        return self.a.tolist()

    def item(self):
        if self.a.size != 1:
            raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % self.a.size)
        return self.a.reshape(-1)[0].item()

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        return bool(self.item())

    def bool(self):
        return self.to(DT['bool'])

    def long(self):
        return self.to(DT['int64'])

    def float(self):
        return self.to(f32)

    # in place
    def copy_(self, src):
        try:
            s = np.broadcast_to(src.a, self.a.shape)
        except ValueError as e:
            raise shape_error(e) from None
        if np.may_share_memory(s, self.a):
            s = s.copy()
        store(self.a, s)
        return self

    def zero_(self):
        store(self.a, 0)
        return self

    def fill_(self, v):
        store(self.a, unwrap(v))
        return self

    def _inplace(self, f, o):
        try:
            with np.errstate(all='ignore'):
                r = np.broadcast_to(f(self.a, unwrap(o)), self.a.shape)
        except ValueError as e:
            raise shape_error(e) from None
        store(self.a, r)
        return self

    def mul_(self, o):
        return self._inplace(np.multiply, o)

    def add_(self, o):
        return self._inplace(np.add, o)

    # arithmetic
    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __neg__(self):
        return neg(self)

    def __ge__(self, o):
        return elementwise(np.greater_equal, (self, o), want=np.bool_)

    def __lt__(self, o):
        return lt(self, o)

    def __gt__(self, o):
        return gt(self, o)

    def __eq__(self, o):
        return eq(self, o)

    __hash__ = object.__hash__

    def pow(self, e):
        return pow_(self, e)

    def _reduce(self, f, dim, keepdim, need_float=False):
        if need_float and self.a.dtype.kind != 'f':
            raise RuntimeError('mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.')
        d = None if dim is None else tuple(axis(x, self.a.ndim) for x in (dim if isinstance(dim, (tuple, list)) else (dim,)))
        if d == ():
            d = None
        r = f(self.a, d, keepdim)
        return alloc(np.asarray(r))

    def mean(self, dim=None, keepdim=False):
        return self._reduce(lambda a, d, k: np.mean(a, axis=d, keepdims=k, dtype=a.dtype), dim, keepdim, True)

    def sum(self, dim=None, keepdim=False):
        return self._reduce(lambda a, d, k: np.sum(a, axis=d, keepdims=k, dtype=a.dtype if a.dtype.kind == 'f' else 'i8'), dim, keepdim)

    def amax(self, dim=None, keepdim=False):
        return self._reduce(lambda a, d, k: np.max(a, axis=d, keepdims=k), dim, keepdim)

    def var(self, dim=None, keepdim=False, unbiased=True):
        return self._reduce(lambda a, d, k: np.var(a, axis=d, keepdims=k, dtype=a.dtype, ddof=int(unbiased)), dim, keepdim, True)

    def scatter_(self, d, i, v):
        np.put_along_axis(self.a, unwrap(i), unwrap(v), d)
        return self


def tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor):
        a = x.a.copy()
    else:
        a = np.array(x)
        if a.dtype == np.float64 or a.size == 0 and a.dtype.kind == 'f':
            a = a.astype(np.float32)
    return alloc(a.astype(dtype.np) if dtype is not None else a)


def empty(*s, dtype=f32, device=None):
    a = np.empty(dims(s), dtype.np)
    a.view(np.uint8).reshape(-1)[...] = FAULTS.poison
    return alloc(a)


def zeros(*s, dtype=f32, device=None):
    return alloc(np.zeros(dims(s), dtype.np))


def ones(*s, dtype=f32, device=None):
    return alloc(np.ones(dims(s), dtype.np))


def full(s, v, dtype=f32, device=None):
    return alloc(np.full(dims((s,)), v, dtype.np))


def arange(*a, dtype=None, device=None):
    return alloc(np.arange(*a, dtype=(dtype or DT['int64']).np))


def zeros_like(t):
    return alloc(np.zeros_like(t.a))


def from_numpy(a):
    if any(x < 0 for x in a.strides):
        raise ValueError('At least one stride in the given numpy array is negative, and tensors with negative strides are not currently supported.')
    if a.dtype not in OF:
        raise TypeError("can't convert np.ndarray of type %s" % a.dtype)
    return Tensor(a)


def add(a, b, out=None):
    return elementwise(np.add, (a, b), out)


def sub(a, b, out=None):
    return elementwise(np.subtract, (a, b), out)


def mul(a, b, out=None):
    return elementwise(np.multiply, (a, b), out)


def div(a, b, out=None):
    t = promote(a, b)
    return elementwise(np.divide, (a, b), out, cast=t if t.kind == 'f' else np.dtype('f4'))


def pow_(a, b, out=None):
    return elementwise(np.power, (a, b), out)


def neg(a):
    return elementwise(np.negative, (a,))


def fl(f):
    def g(a, out=None):
        t = a.a.dtype
        return elementwise(f, (a,), out, cast=t if t.kind == 'f' else np.dtype('f4'))
    return g


relu = lambda a: elementwise(lambda x: np.maximum(x, 0), (a,))  # noqa
sigmoid = fl(lambda x: (1 / (1 + np.exp(-x.astype(np.float64)))).astype(x.dtype))
tanh = fl(np.tanh)
sqrt = fl(np.sqrt)
rsqrt = fl(lambda x: 1 / np.sqrt(x))
erf = fl(lambda x: np.vectorize(math.erf, otypes=[x.dtype])(x) if x.size else x)


def clamp(a, lo=None, hi=None, out=None):
    return elementwise(lambda x: np.clip(x, None if lo is None else x.dtype.type(lo), None if hi is None else x.dtype.type(hi)), (a,), out)


def mm(a, b, out=None):
    if a.a.ndim != 2 or b.a.ndim != 2 or a.a.shape[1] != b.a.shape[0]:
        raise RuntimeError('mat1 and mat2 shapes cannot be multiplied (%s and %s)' % (a.a.shape, b.a.shape))
    return matmul(a, b, out)


def matmul(a, b, out=None):
    if a.a.dtype != b.a.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype, but got: %s != %s' % (a.a.dtype, b.a.dtype))
    try:
        r = np.matmul(a.a, b.a)
    except ValueError as e:
        raise shape_error(e) from None
    return finish(r, out)


def cat(ts, dim=0, out=None):
    try:
        r = np.concatenate([t.a for t in ts], axis=axis(dim, ts[0].a.ndim))
    except ValueError as e:
        raise shape_error(e) from None
    return finish(r, out)


def where(c, a, b, out=None):
    t = promote(a, b)
    try:
        r = np.where(c.a, unwrap(a), unwrap(b)).astype(t)
    except ValueError as e:
        raise shape_error(e) from None
    return finish(r, out)


def cmp(f):
    return lambda a, b, out=None: elementwise(f, (a, b), out, want=np.bool_)


eq, gt, lt = cmp(np.equal), cmp(np.greater), cmp(np.less)


def bounds(i, n):
    if i.size and (i.min() < 0 or i.max() >= n):
        raise IndexError('index out of range in self')


def index_select(a, dim, i):
    if i.a.ndim > 1:
        raise IndexError('index_select(): Index is supposed to be a vector')
    d = axis(dim, a.a.ndim)
    ii = np.atleast_1d(i.a)
    bounds(ii, a.a.shape[d] if a.a.ndim else 1)
    return alloc(np.take(a.a, ii, axis=d))


def gather(a, dim, i):
    d = axis(dim, a.a.ndim)
    bounds(i.a, a.a.shape[d])
    ix = list(np.indices(i.a.shape, sparse=True))
    ix[d] = i.a
    return alloc(a.a[tuple(ix)])


def fmod(a, b):
    return elementwise(np.fmod, (a, b))


def remainder(a, b):
    return elementwise(np.mod, (a, b))


def split(a, sizes, dim=0):
    d = axis(dim, a.a.ndim)
    if isinstance(sizes, int):
        sizes = [min(sizes, a.a.shape[d] - i) for i in range(0, a.a.shape[d], sizes)]
    if sum(sizes) != a.a.shape[d]:
        raise RuntimeError('split_with_sizes expects split_sizes to sum exactly to %d' % a.a.shape[d])
    cut = np.cumsum(sizes)[:-1]
    return tuple(Tensor(x) for x in np.split(a.a, cut, axis=d))


def chunk(a, n, dim=0):
    d = axis(dim, a.a.ndim)
    return split(a, max(1, -(-a.a.shape[d] // n)), d)


def topk(a, k, dim=-1, largest=True, sorted=True):
    d = axis(dim, a.a.ndim)
    if not 0 <= k <= a.a.shape[d]:
        raise RuntimeError('selected index k out of range')
    key = -a.a if largest else a.a
    i = np.argsort(key, axis=d, kind='stable').take(range(k), axis=d)
    return alloc(np.take_along_axis(a.a, i, axis=d)), alloc(i)


def argmax(a, dim=None):
    return alloc(np.asarray(np.argmax(a.a, axis=dim)))


class Draws:
    """The generator behind multinomial, and what it was asked for."""

    def __init__(self):
        self.seed(0)

    def seed(self, n):
        self.rng = np.random.RandomState(n)
        self.log = []


DRAWS = Draws()


def multinomial(p, num_samples, replacement=False, generator=None):
    n = num_samples
    if p.a.ndim == 2 and p.a.shape[0] == 1:
        return multinomial(alloc(p.a[0]), n).reshape(1, 1)
    if p.a.ndim != 1 or n != 1:
        gap('multinomial of this form', NotImplementedError)
    if not np.isfinite(p.a).all() or (p.a < 0).any() or p.a.sum() <= 0:
        raise RuntimeError('probability tensor contains either `inf`, `nan` or element < 0')
    q = p.a.astype(np.float64)
    i = int(np.searchsorted(np.cumsum(q / q.sum()), DRAWS.rng.random_sample(), side='right'))
    while i >= q.size or q[i] == 0:
        i = int(np.argmax(q)) if i >= q.size else i + 1
    DRAWS.log.append((p.a.copy(), i))
    return alloc(np.array([i]))


def triu(a, diagonal=0):
    return alloc(np.triu(a.a, diagonal))


# ---------------------------------------------------------------- functional
def pair(x):
    return (x, x) if isinstance(x, int) else tuple(x) if len(x) > 1 else (x[0], x[0])


def windows(x, k, s, d):
    n, c, h, w = x.shape
    oh = (h - d[0] * (k[0] - 1) - 1) // s[0] + 1
    ow = (w - d[1] * (k[1] - 1) - 1) // s[1] + 1
    if oh <= 0 or ow <= 0:
        raise RuntimeError("Calculated output size per channel: (%d x %d). Kernel size can't be greater than actual input size" % (oh, ow))
    st = x.strides
    return np.lib.stride_tricks.as_strided(x, (n, c, oh, ow, k[0], k[1]), (st[0], st[1], st[2] * s[0], st[3] * s[1], st[2] * d[0], st[3] * d[1]))


def conv2d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if x.a.ndim != 4 or w.a.ndim != 4:
        raise RuntimeError('Expected 3D (unbatched) or 4D (batched) input to conv2d')
    s, p, d = pair(stride), pair(padding), pair(dilation)
    if x.a.shape[1] != w.a.shape[1] * groups or w.a.shape[0] % groups:
        raise RuntimeError('Given groups=%d, weight of size %s, expected another number of channels than %s' % (groups, w.a.shape, x.a.shape))
    xp = np.pad(x.a, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])))
    v = windows(xp, w.a.shape[2:], s, d)
    g, cg, og = groups, w.a.shape[1], w.a.shape[0] // groups
    out = [np.einsum('nchwij,ocij->nohw', v[:, i * cg:(i + 1) * cg], w.a[i * og:(i + 1) * og]) for i in range(g)]
    r = np.concatenate(out, axis=1)
    if bias is not None:
        r = r + bias.a.reshape(1, -1, 1, 1)
    return alloc(r.astype(x.a.dtype))


def pool(x, k, stride, padding, fill, f, dil=(1, 1)):
    k, p = pair(k), pair(padding)
    s = pair(stride) if stride is not None else k
    if p[0] * 2 > k[0] or p[1] * 2 > k[1]:
        raise RuntimeError('pad should be at most half of effective kernel size')
    xp = np.pad(x.a, ((0, 0), (0, 0), (p[0], p[0]), (p[1], p[1])), constant_values=fill)
    return alloc(f(windows(xp, k, s, dil)).astype(x.a.dtype))


def avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True):
    if ceil_mode:
        gap('ceil_mode', NotImplementedError)
    if count_include_pad:
        return pool(x, kernel_size, stride, padding, 0, lambda v: v.mean(axis=(4, 5)))
    one = np.ones_like(x.a)
    num = pool(x, kernel_size, stride, padding, 0, lambda v: v.sum(axis=(4, 5)))
    den = pool(Tensor(one), kernel_size, stride, padding, 0, lambda v: v.sum(axis=(4, 5)))
    return alloc(num.a / den.a)


def max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False):
    if ceil_mode:
        gap('ceil_mode', NotImplementedError)
    return pool(x, kernel_size, stride, padding, -np.inf, lambda v: v.max(axis=(4, 5)), pair(dilation))


def adaptive_avg_pool2d(x, size):
    assert tuple(size) == (1, 1)
    return alloc(x.a.mean(axis=(2, 3), keepdims=True, dtype=x.a.dtype))


def leaky_relu(x, a=0.01):
    return elementwise(lambda v: np.where(v > 0, v, v * v.dtype.type(a)), (x,))


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=.1, eps=1e-5):
    sh = (1, -1) + (1,) * (x.a.ndim - 2)
    r = (x.a - running_mean.a.reshape(sh)) / np.sqrt(running_var.a.reshape(sh) + np.float32(eps))
    return alloc((r * weight.a.reshape(sh) + bias.a.reshape(sh)).astype(x.a.dtype))


def softmax(x, dim):
    d = axis(dim, x.a.ndim)
    e = np.exp(x.a - x.a.max(axis=d, keepdims=True))
    return alloc((e / e.sum(axis=d, keepdims=True)).astype(x.a.dtype))


def gelu(x, approximate='none'):
    if approximate not in ('none', 'tanh'):
        raise RuntimeError('approximate argument must be either none or tanh.')
    if approximate == 'tanh':
        return elementwise(lambda v: (v * .5 * (1 + np.tanh(math.sqrt(2 / math.pi) * (v + .044715 * v ** 3)))).astype(v.dtype), (x,))
    return elementwise(lambda v: v * .5 * (1 + np.vectorize(math.erf, otypes=[v.dtype])(v / np.sqrt(v.dtype.type(2)))), (x,))


def silu(x):
    return elementwise(lambda v: v / (1 + np.exp(-v)), (x,))


def fpad(x, p, mode='constant', value=None):
    p = [int(v) for v in p]
    n = x.a.ndim
    if len(p) > 2 * n or len(p) % 2:
        raise RuntimeError('Padding length should be less than or equal to two times the input dimension')
    w = [(0, 0)] * n
    for i in range(len(p) // 2):
        w[n - 1 - i] = (p[2 * i], p[2 * i + 1])
    a = x.a
    if mode == 'constant':
        for i, (b, e) in enumerate(w):      # negative values crop
            a = a[(slice(None),) * i + (slice(max(0, -b), a.shape[i] - max(0, -e)),)]
        w = [(max(0, b), max(0, e)) for b, e in w]
        return alloc(np.pad(a, w, constant_values=value or 0))
    if len(p) // 2 > n - 1 or len(p) // 2 > 3 or (n - len(p) // 2) not in (1, 2):
        raise NotImplementedError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
    return alloc(np.pad(a, w, mode={'reflect': 'reflect', 'replicate': 'edge'}[mode]))


def interpolate(x, size=None, mode='nearest', align_corners=None):
    size = [int(s) for s in size]
    if mode == 'nearest':
        a = x.a
        for i, s in enumerate(size):
            n = a.shape[2 + i]
            ix = np.minimum((np.arange(s) * np.float32(n / s)).astype(np.int64), n - 1)
            a = np.take(a, ix, axis=2 + i)
        return alloc(a)
    if mode == 'bilinear':
        a = x.a.astype(np.float64)
        for i, s in enumerate(size):
            n = a.shape[2 + i]
            pos = np.arange(s) * ((n - 1) / max(s - 1, 1)) if align_corners else np.maximum((np.arange(s) + .5) * n / s - .5, 0)
            lo = np.minimum(pos.astype(np.int64), n - 1)
            hi = np.minimum(lo + 1, n - 1)
            sh = [1] * a.ndim
            sh[2 + i] = s
            fr = (pos - lo).reshape(sh)
            a = np.take(a, lo, axis=2 + i) * (1 - fr) + np.take(a, hi, axis=2 + i) * fr
        return alloc(a.astype(x.a.dtype))
    gap('interpolate ' + mode, NotImplementedError)


# ---------------------------------------------------------------- further functions, so that rewritten runtime code finds them
def unary(f):
    return lambda a, out=None: elementwise(f, (a,), out)


def binary(f):
    return lambda a, b, out=None: elementwise(f, (a, b), out)


exp, log, sin, cos, log1p, expm1, exp2 = (fl(f) for f in (np.exp, np.log, np.sin, np.cos, np.log1p, np.expm1, np.exp2))
abs_, floor, ceil, sign, trunc, square = (unary(f) for f in (np.abs, np.floor, np.ceil, np.sign, np.trunc, np.square))
round_ = unary(np.rint)
reciprocal = fl(lambda x: 1 / x)
maximum, minimum, floor_divide = (binary(f) for f in (np.maximum, np.minimum, np.floor_divide))
le, ge, ne = cmp(np.less_equal), cmp(np.greater_equal), cmp(np.not_equal)
logical_and, logical_or = cmp(np.logical_and), cmp(np.logical_or)
logical_not = lambda a, out=None: elementwise(np.logical_not, (a,), out, want=np.bool_)  # noqa
isnan, isinf, isfinite = (lambda a, f=f: elementwise(f, (a,), want=np.bool_) for f in (np.isnan, np.isinf, np.isfinite))


def full_like(t, v, dtype=None, device=None):
    return alloc(np.full(t.a.shape, v, dtype.np if dtype else t.a.dtype))


def ones_like(t, dtype=None, device=None):
    return full_like(t, 1, dtype)


def empty_like(t, dtype=None, device=None):
    return empty(*t.a.shape, dtype=dtype or t.dtype)


def as_tensor(x, dtype=None, device=None):
    return x.to(dtype) if isinstance(x, Tensor) and dtype is not None else x if isinstance(x, Tensor) else tensor(x, dtype)


def stack(ts, dim=0, out=None):
    return finish(np.stack([t.a for t in ts], axis=dim), out)


def tril(a, diagonal=0):
    return alloc(np.tril(a.a, diagonal))


def bmm(a, b, out=None):
    return matmul(a, b, out)


def addmm(c, a, b, beta=1, alpha=1, out=None):
    return finish((beta * c.a + alpha * (a.a @ b.a)).astype(a.a.dtype), out)


def einsum(eq_, *ts):
    ts = ts[0] if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts
    return alloc(np.asarray(np.einsum(eq_, *[t.a for t in ts])))


def sum_(a, dim=None, keepdim=False):
    return a.sum(dim, keepdim)


def mean(a, dim=None, keepdim=False):
    return a.mean(dim, keepdim)


def extreme(f, g, pairwise):
    def h(a, dim=None, keepdim=False):
        if dim is None:
            return a._reduce(lambda x, d, k: f(x, axis=d, keepdims=k), None, False)
        if isinstance(dim, Tensor):
            return pairwise(a, dim)
        d = axis(dim, a.a.ndim)
        r = types.SimpleNamespace(values=alloc(f(a.a, axis=d, keepdims=keepdim)), indices=alloc(np.asarray(g(a.a, axis=d, keepdims=keepdim))))
        return Pair((r.values, r.indices))
    return h


class Pair(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


max_, min_ = extreme(np.max, np.argmax, maximum), extreme(np.min, np.argmin, minimum)


def prod(a, dim=None, keepdim=False):
    return a._reduce(lambda x, d, k: np.prod(x, axis=d, keepdims=k), dim, keepdim)


def all_(a, dim=None, keepdim=False):
    return a._reduce(lambda x, d, k: np.all(x, axis=d, keepdims=k), dim, keepdim)


def any_(a, dim=None, keepdim=False):
    return a._reduce(lambda x, d, k: np.any(x, axis=d, keepdims=k), dim, keepdim)


def cumsum(a, dim):
    return alloc(np.cumsum(a.a, axis=axis(dim, a.a.ndim)))


def sort(a, dim=-1, descending=False, stable=False):
    d = axis(dim, a.a.ndim)
    i = np.argsort(-a.a if descending else a.a, axis=d, kind='stable')
    return Pair((alloc(np.take_along_axis(a.a, i, axis=d)), alloc(i)))


def argsort(a, dim=-1, descending=False):
    return sort(a, dim, descending)[1]


def flip(a, d):
    return alloc(np.flip(a.a, axis=tuple(d)).copy())


def numel(a):
    return a.numel()


def is_tensor(x):
    return isinstance(x, Tensor)


def scatter(a, dim, i, v):
    return a.clone().scatter_(dim, i, v)


def masked_fill(a, m, v):
    return alloc(np.where(m.a, np.asarray(unwrap(v)).astype(a.a.dtype), a.a))


def outer(a, b):
    return alloc(np.outer(a.a, b.a))


def linear(x, w, bias=None):
    r = matmul(x, Tensor(w.a.T))
    return r if bias is None else add(r, bias)


def embedding(i, w):
    bounds(i.a, w.a.shape[0])
    return alloc(w.a[i.a])


def layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
    d = tuple(range(-len(shape), 0))
    r = (x.a - x.a.mean(axis=d, keepdims=True, dtype=x.a.dtype)) / np.sqrt(x.a.var(axis=d, keepdims=True, dtype=x.a.dtype) + x.a.dtype.type(eps))
    r = r * (weight.a if weight is not None else 1) + (bias.a if bias is not None else 0)
    return alloc(r.astype(x.a.dtype))


def rms_norm(x, shape, weight=None, eps=None):
    d = tuple(range(-len(shape), 0))
    r = x.a / np.sqrt((x.a * x.a).mean(axis=d, keepdims=True, dtype=x.a.dtype) + x.a.dtype.type(eps or 0))
    return alloc((r * (weight.a if weight is not None else 1)).astype(x.a.dtype))


def log_softmax(x, dim):
    d = axis(dim, x.a.ndim)
    z = x.a - x.a.max(axis=d, keepdims=True)
    return alloc((z - np.log(np.exp(z).sum(axis=d, keepdims=True))).astype(x.a.dtype))


def sdpa(q, k, v, attn_mask=None, dropout_p=0.0, is_causal=False, scale=None, enable_gqa=False):
    qa, ka, va = q.a, k.a, v.a
    if enable_gqa:
        ka, va = (np.repeat(x, qa.shape[-3] // x.shape[-3], axis=-3) for x in (ka, va))
    s = (qa @ np.swapaxes(ka, -1, -2)) * qa.dtype.type(scale or qa.shape[-1] ** -.5)
    if is_causal:
        s = np.where(np.tril(np.ones(s.shape[-2:], bool)), s, -np.inf)
    if attn_mask is not None:
        s = np.where(attn_mask.a, s, -np.inf) if attn_mask.a.dtype == bool else s + attn_mask.a
    e = np.exp(s - s.max(axis=-1, keepdims=True))
    return alloc(((e / e.sum(axis=-1, keepdims=True)) @ va).astype(qa.dtype))


def method(name, f):
    if not hasattr(Tensor, name):
        setattr(Tensor, name, f)


EXTRA = {'exp': exp, 'log': log, 'sin': sin, 'cos': cos, 'log1p': log1p, 'expm1': expm1, 'exp2': exp2, 'abs': abs_, 'floor': floor, 'ceil': ceil,
         'sign': sign, 'trunc': trunc, 'square': square, 'round': round_, 'reciprocal': reciprocal, 'maximum': maximum, 'minimum': minimum,
         'floor_divide': floor_divide, 'le': le, 'ge': ge, 'ne': ne, 'logical_and': logical_and, 'logical_or': logical_or, 'logical_not': logical_not,
         'isnan': isnan, 'isinf': isinf, 'isfinite': isfinite, 'full_like': full_like, 'ones_like': ones_like, 'empty_like': empty_like,
         'as_tensor': as_tensor, 'stack': stack, 'tril': tril, 'bmm': bmm, 'addmm': addmm, 'einsum': einsum, 'sum': sum_, 'mean': mean, 'max': max_,
         'min': min_, 'prod': prod, 'all': all_, 'any': any_, 'cumsum': cumsum, 'sort': sort, 'argsort': argsort, 'flip': flip, 'numel': numel,
         'is_tensor': is_tensor, 'scatter': scatter, 'masked_fill': masked_fill, 'outer': outer, 'concat': cat, 'concatenate': cat, 'multiply': mul,
         'subtract': sub, 'divide': div, 'negative': neg, 'clip': clamp, 'true_divide': div}
for _n in ('exp log sin cos abs floor ceil sign trunc square round reciprocal maximum minimum floor_divide le ge ne logical_and logical_or logical_not isnan '
           'isinf isfinite tril bmm max min prod all any cumsum sort argsort flip masked_fill scatter clip').split():
    method(_n, EXTRA[_n])
for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('div', div), ('neg', neg), ('relu', relu), ('sigmoid', sigmoid), ('tanh', tanh), ('sqrt', sqrt),
               ('rsqrt', rsqrt), ('erf', erf), ('clamp', clamp), ('mm', mm), ('matmul', matmul), ('eq', eq), ('gt', gt), ('lt', lt), ('topk', topk),
               ('argmax', argmax), ('triu', triu), ('index_select', index_select), ('gather', gather), ('fmod', fmod), ('remainder', remainder),
               ('split', split), ('chunk', chunk), ('__matmul__', matmul), ('__pow__', pow_), ('__le__', le), ('__ne__', ne), ('__and__', logical_and),
               ('__or__', logical_or), ('__invert__', logical_not), ('__floordiv__', floor_divide), ('__mod__', remainder), ('__abs__', abs_),
               ('softmax', lambda a, dim=None, dtype=None: softmax(a, dim)), ('type', lambda a, dt=None: a.dtype if dt is None else a.to(dt)), ('int', lambda a: a.to(DT['int32'])), ('double', lambda a: a.to(DT['float64'])),
               ('half', lambda a: a.to(DT['float16'])), ('t', lambda a: Tensor(a.a.T)), ('view_as', lambda a, o: a.view(*o.a.shape)),
               ('reshape_as', lambda a, o: a.reshape(*o.a.shape)), ('expand_as', lambda a, o: a.expand(*o.a.shape)),
               ('narrow', lambda a, d, s, n: Tensor(a.a[(slice(None),) * axis(d, a.a.ndim) + (slice(s, s + n),)])),
               ('select', lambda a, d, i: Tensor(a.a[(slice(None),) * axis(d, a.a.ndim) + (i,)])),
               ('ravel', lambda a: Tensor(a.a.reshape(-1))), ('nelement', lambda a: a.numel()), ('type_as', lambda a, o: a.to(o.dtype)),
               ('movedim', lambda a, i, j: Tensor(np.moveaxis(a.a, i, j))), ('swapaxes', lambda a, i, j: a.transpose(i, j)),
               ('new_zeros', lambda a, *s: zeros(*s, dtype=a.dtype)), ('new_full', lambda a, s, v: full(s, v, dtype=a.dtype)),
               ('untyped_storage', lambda a: types.SimpleNamespace(data_ptr=lambda: a.data_ptr())), ('storage_offset', lambda a: 0),
               ('stride', lambda a, d=None: tuple(x // a.a.itemsize for x in a.a.strides) if d is None else a.a.strides[d] // a.a.itemsize),
               ('dequantize', lambda a: a), ('requires_grad_', lambda a, *x: a), ('is_floating_point', lambda a: a.a.dtype.kind == 'f')):
    method(_n, _f)
for _n, _f in (('sub_', np.subtract), ('div_', np.divide), ('pow_', np.power), ('maximum_', np.maximum)):
    method(_n, lambda a, o, f=_f: a._inplace(f, o))
for _n, _f in (('exp_', np.exp), ('sqrt_', np.sqrt), ('neg_', np.negative), ('tanh_', np.tanh), ('reciprocal_', lambda x: 1 / x), ('rsqrt_', lambda x: 1 / np.sqrt(x)),
               ('abs_', np.abs), ('relu_', lambda x: np.maximum(x, 0)), ('sigmoid_', lambda x: 1 / (1 + np.exp(-x)))):
    method(_n, lambda a, f=_f: a._inplace(lambda x, _: f(x).astype(x.dtype), 0))
method('clamp_', lambda a, min=None, max=None: a._inplace(lambda x, _: np.clip(x, min, max), 0))
method('masked_fill_', lambda a, m, v: a._inplace(lambda x, _: np.where(m.a, v, x).astype(x.dtype), 0))
method('__iadd__', lambda a, o: a.add_(o))
method('__imul__', lambda a, o: a.mul_(o))
method('__isub__', lambda a, o: a.sub_(o))
method('__itruediv__', lambda a, o: a.div_(o))
method('__rtruediv__', lambda a, o: div(o, a))
method('__rpow__', lambda a, o: pow_(o, a))
method('__iter__', lambda a: iter([Tensor(x) if isinstance(x, np.ndarray) else Tensor(np.asarray(x)) for x in a.a]))
FREE = {'flatten': lambda a, *k: a.flatten(*k), 'reshape': lambda a, s: a.reshape(s), 'permute': lambda a, p: a.permute(p), 'transpose': lambda a, i, j: a.transpose(i, j),
        'squeeze': lambda a, dim=None: a.squeeze(dim), 'unsqueeze': lambda a, dim: a.unsqueeze(dim), 'clone': lambda a: a.clone(), 'var': lambda a, *k, **q: a.var(*k, **q),
        'repeat_interleave': lambda a, n, dim=None: a.repeat_interleave(n, dim), 'tile': lambda a, r: a.repeat(r), 'amax': lambda a, dim=None, keepdim=False: a.amax(dim, keepdim),
        'amin': lambda a, dim=None, keepdim=False: min_(a, dim, keepdim)[0], 'broadcast_to': lambda a, s: a.expand(*s), 'softmax': lambda a, dim: softmax(a, dim), 'swapaxes': lambda a, i, j: a.transpose(i, j),
        'movedim': lambda a, i, j: a.movedim(i, j), 'cumprod': lambda a, dim: alloc(np.cumprod(a.a, axis=dim)), 'scalar_tensor': lambda x, dtype=None, device=None: tensor(x, dtype),
        'count_nonzero': lambda a: alloc(np.asarray(np.count_nonzero(a.a))), 'equal': lambda a, b: a.a.shape == b.a.shape and bool((a.a == b.a).all()),
        'allclose': lambda a, b, **k: bool(np.allclose(a.a, b.a)), 'is_floating_point': lambda a: a.a.dtype.kind == 'f', 'manual_seed': lambda n: DRAWS.seed(n),
        'promote_types': lambda a, b: OF[np.promote_types(a.np, b.np)], 'addcmul': lambda a, b, c, value=1: add(a, mul(mul(b, c), value)), 'lerp': lambda a, b, w: add(a, mul(sub(b, a), w)),
        'linspace': lambda a, b, n, dtype=f32, device=None: alloc(np.linspace(a, b, n).astype(dtype.np)), 'eye': lambda n, dtype=f32, device=None: alloc(np.eye(n, dtype=dtype.np)),
        'meshgrid': lambda *a, indexing='ij': [Tensor(x) for x in np.meshgrid(*[t.a for t in a], indexing=indexing)], 'get_default_dtype': lambda: f32, 'baddbmm': lambda c, a, b: add(c, matmul(a, b))}


class no_grad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install():
    t = types.ModuleType('torch')
    for n, d in DT.items():
        setattr(t, n, d)
    t.double, t.float, t.half, t.long, t.int = DT['float64'], f32, DT['float16'], DT['int64'], DT['int32']
    g = globals()
    for n in ('Tensor Size dtype tensor empty zeros ones full arange zeros_like from_numpy add sub mul div neg relu sigmoid tanh sqrt rsqrt erf '
              'clamp mm matmul cat where eq gt lt index_select gather fmod remainder split chunk topk argmax triu multinomial no_grad').split():
        setattr(t, n, g[n])
    for n, f in list(EXTRA.items()) + list(FREE.items()):
        if not hasattr(t, n):
            setattr(t, n, f)
    t.inference_mode, t.set_grad_enabled = no_grad, lambda *a: no_grad()
    t.inf, t.nan, t.pi = math.inf, math.nan, math.pi
    t.device = lambda x, *a: x
    t.finfo, t.iinfo = (lambda d=f32: np.finfo(d.np)), (lambda d: np.iinfo(d.np))
    t.int64, t.uint8 = DT['int64'], DT['uint8']
    t.strided = t.contiguous_format = t.preserve_format = None
    t.pow = pow_
    t.randn = lambda *s, dtype=f32, device=None, **k: alloc(DRAWS.rng.standard_normal(dims(s)).astype(dtype.np))
    t.rand = lambda *s, dtype=f32, device=None, **k: alloc(DRAWS.rng.random_sample(dims(s)).astype(dtype.np))
    t.xpu = types.SimpleNamespace(synchronize=lambda: None, is_available=lambda: False)
    nn = types.ModuleType('torch.nn')
    F = types.ModuleType('torch.nn.functional')
    for n in 'conv2d avg_pool2d max_pool2d adaptive_avg_pool2d leaky_relu batch_norm softmax gelu silu interpolate'.split():
        setattr(F, n, g[n])
    F.pad = fpad
    F.linear, F.embedding, F.layer_norm, F.rms_norm, F.log_softmax, F.scaled_dot_product_attention = linear, embedding, layer_norm, rms_norm, log_softmax, sdpa
    F.relu, F.sigmoid, F.tanh, F.relu6 = relu, sigmoid, tanh, lambda x: clamp(x, 0, 6)
    F.normalize = lambda x, p=2.0, dim=1, eps=1e-12: div(x, alloc(np.maximum(np.sqrt((x.a ** 2).sum(axis=dim, keepdims=True)), eps)))
    nn.functional = F
    t.nn = nn
    t.__getattr__, F.__getattr__, nn.__getattr__ = missing('torch'), missing('torch.nn.functional'), missing('torch.nn')
    sys.modules['torch'] = t
    sys.modules['torch.nn'] = nn
    sys.modules['torch.nn.functional'] = F
    return t


def excuse(msg):
    """Name of what the substitute lacks, if the violation may stem from it."""
    if GAPS:
        return GAPS[0]
    for m in re.finditer(r'(?:^|[^\w])([\w.<>]+)\(\) (?:got an unexpected keyword argument|takes \d+ positional argument|takes from|missing \d+ required|got multiple values)', msg):
        n = m.group(1).split('.')[-1]
        if n in globals() or n in EXTRA or n in FREE or n == '<lambda>' or hasattr(Tensor, n):
            return m.group(0).strip()
