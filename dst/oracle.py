"""Independent oracles: reference execution, canonical digests, integrity of the graph's redundant views,
decoders for the deployment artefacts, an executor that runs a model inside a memory plan."""
import hashlib
import struct

import numpy as np
import onnx
from onnx import numpy_helper

from . import models


# ---- reference execution -------------------------------------------------------------------------
_NEW_OPS = []


def new_ops():
    """Operators the reference evaluator of the installed onnx gets wrong, by the text of the specification.

    MaxPool: it reads `pads` as (begin, end) pairs of each axis, the specification as all begins and then all ends.
    GatherElements: it takes another path for some matrices, where indices count from the wrong axis."""
    if not _NEW_OPS:
        from onnx.reference.op_run import OpRun

        class MaxPool(OpRun):
            op_domain = ''

            def _run(self, x, auto_pad=None, ceil_mode=None, dilations=None, kernel_shape=None, pads=None, storage_order=None,
                     strides=None):
                n = len(kernel_shape)
                st, di = list(strides or [1] * n), list(dilations or [1] * n)
                pb, pe = ([0] * n, [0] * n) if not pads else (list(pads[:n]), list(pads[n:]))
                ext = [(k - 1) * d + 1 for k, d in zip(kernel_shape, di)]
                sizes = []
                for a in range(n):
                    z = x.shape[2 + a]
                    if auto_pad in ('SAME_UPPER', 'SAME_LOWER'):
                        o = -(-z // st[a])
                        t = max(0, (o - 1) * st[a] + ext[a] - z)
                        pb[a], pe[a] = (t // 2, t - t // 2) if auto_pad == 'SAME_UPPER' else (t - t // 2, t // 2)
                    else:
                        if auto_pad == 'VALID':
                            pb[a] = pe[a] = 0
                        r = z + pb[a] + pe[a] - ext[a]
                        o = (-(-r // st[a]) if ceil_mode else r // st[a]) + 1
                        if ceil_mode and (o - 1) * st[a] >= z + pb[a]:
                            o -= 1
                    sizes.append(o)
                low = -np.inf if x.dtype.kind == 'f' else np.iinfo(x.dtype).min
                grow = [max(pe[a], (sizes[a] - 1) * st[a] + ext[a] - x.shape[2 + a] - pb[a]) for a in range(n)]
                xp = np.pad(x, [(0, 0), (0, 0)] + list(zip(pb, grow)), constant_values=low)
                y = np.full(x.shape[:2] + tuple(sizes), low, x.dtype)
                for off in np.ndindex(*kernel_shape):
                    sl = tuple(slice(o * d, o * d + (z - 1) * s + 1, s) for o, d, z, s in zip(off, di, sizes, st))
                    np.maximum(y, xp[(slice(None), slice(None)) + sl], out=y)
                if len(self.onnx_node.output) < 2:
                    return (y,)
                # where the first maximum of each window lies in the flattened input
                at = np.pad(np.arange(x.size, dtype=np.int64).reshape(x.shape), [(0, 0), (0, 0)] + list(zip(pb, grow)), constant_values=-1)
                ind = np.full(y.shape, -1, np.int64)
                for off in np.ndindex(*kernel_shape):
                    sl = (slice(None), slice(None)) + tuple(slice(o * d, o * d + (z - 1) * s + 1, s)
                                                            for o, d, z, s in zip(off, di, sizes, st))
                    ind = np.where((ind < 0) & (at[sl] >= 0) & (xp[sl] == y), at[sl], ind)
                return y, ind

        class GatherElements(OpRun):
            op_domain = ''

            def _run(self, data, indices, axis=None):
                at = list(np.indices(indices.shape))
                ax = (axis or 0) % data.ndim
                at[ax] = np.where(indices < 0, indices + data.shape[ax], indices)
                return (data[tuple(at)],)
        _NEW_OPS.extend([MaxPool, GatherElements])
    return _NEW_OPS


def ref_run(model, inputs, outputs=None):
    """Outputs of the model by onnx.reference (node order irrelevant)."""
    from onnx.reference import ReferenceEvaluator
    m = models.ordered(model)
    inits = {t.name for t in m.graph.initializer}
    feeds = {i.name: inputs[i.name] for i in m.graph.input if i.name in inputs}
    if outputs is None:
        outputs = [o.name for o in m.graph.output]
    sess = ReferenceEvaluator(m, new_ops=new_ops())
    with np.errstate(all='ignore'):
        res = sess.run(outputs, feeds)
    return dict(zip(outputs, res))


def ref_all(model, inputs, want=None):
    """Every intermediate value of the model by the reference evaluator: {name: array}."""
    m = models.ordered(model)
    names = []
    have = {o.name for o in m.graph.output}
    for n in m.graph.node:
        for o in n.output:
            if o and o not in have:
                names.append(o)
    for nme in names:
        m.graph.output.append(onnx.helper.make_tensor_value_info(nme, onnx.TensorProto.FLOAT, None))
    return ref_run(m, inputs)


def close(a, b):
    """None when equal up to float32 rounding, else what differs."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    if a.dtype != b.dtype:
        return 'type %s, expected %s' % (a.dtype, b.dtype)
    if a.dtype.kind in 'fc':
        a, b = a.astype(np.float64), b.astype(np.float64)
        with np.errstate(all='ignore'):
            ok = np.isclose(a, b, rtol=2e-3, atol=1e-3, equal_nan=True) | (np.isinf(a) & np.isinf(b) & (a == b))
        if not ok.all():
            i = tuple(int(v) for v in np.unravel_index(int(np.argmin(ok)), ok.shape)) if ok.ndim else ()
            return 'element %s is %r, expected %r (%d of %d differ)' % (i, float(a[i]), float(b[i]), (~ok).sum(), ok.size)
    elif not np.array_equal(a, b):
        return 'values differ: %r, expected %r' % (a.ravel()[:6].tolist(), b.ravel()[:6].tolist())
    return None


def differing(a, b):
    """The elements that are not equal up to float32 rounding (as in close)."""
    if a.dtype.kind in 'fc':
        with np.errstate(all='ignore'):
            a, b = a.astype(np.float64), b.astype(np.float64)
            return ~(np.isclose(a, b, rtol=2e-3, atol=1e-3, equal_nan=True) | (np.isinf(a) & np.isinf(b) & (a == b)))
    return np.asarray(a != b)


def with_weights(model, f):
    """A copy of the model with every initializer passed through f."""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    for t in m.graph.initializer:
        t.CopyFrom(numpy_helper.from_array(np.asarray(f(numpy_helper.to_array(t))), t.name))
    return m


def stepwise(model, inputs, value):
    """Check every node on its own, with the inputs the code under test really gave it (value: name -> array or None).
    Returns the first node whose output is wrong, or None: then an end-to-end difference is rounding that a
    discontinuous operator (Floor, ArgMax, Cast...) has amplified."""
    m = models.ordered(model)
    inits = {t.name: numpy_helper.to_array(t) for t in m.graph.initializer}
    have = dict(inits)
    have.update(inputs)
    for nm, a in inputs.items():
        v = value(nm)
        if v is not None and (v.dtype != a.dtype or v.shape != a.shape or v.tobytes() != a.tobytes()):
            return 'input %s does not hold the values given' % nm
    from onnx.reference import ReferenceEvaluator
    for n in m.graph.node:
        ins = [i for i in dict.fromkeys(n.input) if i]
        feeds = {i: have[i] for i in ins}
        gi = [onnx.helper.make_tensor_value_info(i, onnx.helper.np_dtype_to_tensor_dtype(a.dtype), a.shape)
              for i, a in feeds.items()]
        outs = [o for o in n.output if o]
        go = [onnx.helper.make_tensor_value_info(o, onnx.TensorProto.FLOAT, None) for o in outs]
        sub = onnx.helper.make_model(onnx.helper.make_graph([n], 'n', gi, go), opset_imports=m.opset_import)
        with np.errstate(all='ignore'):
            res = dict(zip(outs, ReferenceEvaluator(sub, new_ops=new_ops()).run(outs, feeds)))
        for o in outs:
            v = value(o)
            if v is not None:
                d = close(v, res[o])
                if d:
                    return 'node %s (%s) output %s: %s' % (n.name, n.op_type, o, d)
            have[o] = res[o] if v is None else v
    return None


# ---- canonical views -----------------------------------------------------------------------------
def arr_sig(a):
    if a is None:
        return None
    a = np.asarray(a)
    if a.dtype == object:
        return ('obj', a.shape, repr(a.tolist()))
    return (str(a.dtype), tuple(a.shape), hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16])


def norm_attr(v):
    """Canonical form of an attribute value, whatever container it arrived in."""
    if isinstance(v, onnx.TensorProto):
        return ('tensor',) + arr_sig(numpy_helper.to_array(v))
    if isinstance(v, np.ndarray):
        return ('tensor',) + arr_sig(v)
    if isinstance(v, (bytes, bytearray)):
        return ('s', bytes(v).decode('utf-8', 'backslashreplace'))
    if isinstance(v, str):
        return ('s', v)
    if isinstance(v, (bool, np.bool_)):
        return ('i', int(v))
    if isinstance(v, (int, np.integer)):
        return ('i', int(v))
    if isinstance(v, (float, np.floating)):
        return ('f', struct.pack('<f', float(v)))
    if isinstance(v, (list, tuple)) or type(v).__name__.startswith('Repeated'):
        return ('l',) + tuple(norm_attr(x) for x in v)
    if isinstance(v, onnx.GraphProto):
        return ('g', hashlib.sha256(v.SerializeToString(deterministic=True)).hexdigest()[:16])
    if v is None:
        return None
    return ('?', repr(v))


def proto_nodes(model, names=True):
    out = []
    for n in model.graph.node:
        attrs = tuple(sorted((a.name, norm_attr(onnx.helper.get_attribute_value(a))) for a in n.attribute))
        out.append((n.name if names else '', n.op_type, n.domain, tuple(n.input), tuple(n.output), attrs))
    return out


def proto_inits(model):
    return {t.name: arr_sig(numpy_helper.to_array(t)) for t in model.graph.initializer}


def vi_sig(v):
    t = v.type.tensor_type
    dims = None
    if t.HasField('shape'):
        dims = tuple(d.dim_param if d.HasField('dim_param') else (d.dim_value if d.HasField('dim_value') else None)
                     for d in t.shape.dim)
    return (v.name, t.elem_type, dims)


def graph_digest(g, shapes=True, values=False):
    """Canonical content of an onnx_tool.Graph: what a user can observe through its public attributes."""
    nodes = []
    for name, n in g.nodemap.items():
        attrs = tuple(sorted((k, norm_attr(v)) for k, v in n.attr.items()))
        nodes.append((name, n.name, n.op_type, tuple(n.input), tuple(n.output), attrs))
    tens = {}
    for name, t in g.tensormap.items():
        e = [t.type]
        if shapes:
            e.append(shape_sig(t))
            e.append(np.dtype(t.dtype).name if t.dtype is not None else None)
        if name in g.initials or values:
            e.append(arr_sig(t.numpy))
        tens[name] = tuple(e)
    return {'nodes': nodes, 'tensors': tens, 'input': list(g.input), 'output': list(g.output),
            'initials': sorted(g.initials),
            'producedby': {k: sorted(v) for k, v in g.producedby.items() if v},
            'consumedby': {k: sorted(v) for k, v in g.consumedby.items() if v}}


def full_state(g):
    """Everything an API user can see of a graph, for comparison of one object at two times."""
    d = graph_digest(g, shapes=True, values=True)
    d['dynamics'] = list(g.dynamics)
    d['flags'] = {k: getattr(g, k, None) for k in ('valid_shape', 'valid_profile')}
    d['sums'] = {k: repr(getattr(g, k, None)) for k in ('macs', 'params', 'memory', 'sparse_model')}
    d['nodefig'] = [(n.name, repr(getattr(n, 'macs', None)), repr(getattr(n, 'params', None)), repr(getattr(n, 'memory', None)))
                    for n in g.nodemap.values()]
    return d


def shape_sig(t):
    return tuple(s if isinstance(s, str) else int(s) if np.ndim(s) == 0 and s is not None else repr(s) for s in t.shape)


def diff(a, b, path='', out=None, limit=6):
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append('%s/%s only in second: %r' % (path, k, b[k])[:300])
            elif k not in b:
                out.append('%s/%s only in first: %r' % (path, k, a[k])[:300])
            else:
                diff(a[k], b[k], '%s/%s' % (path, k), out, limit)
            if len(out) >= limit:
                break
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append('%s length %d != %d: %r vs %r' % (path, len(a), len(b), a if len(str(a)) < 200 else '..',
                                                        b if len(str(b)) < 200 else '..'))
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, '%s[%d]' % (path, i), out, limit)
            if len(out) >= limit:
                break
    elif a != b:
        out.append('%s: %r != %r' % (path, a, b))
    return out


def infer_result(g):
    """What shape inference decided: shape and dtype of every tensor the graph's nodes touch."""
    res = {}
    for n in g.nodemap.values():
        for t in list(n.input) + list(n.output):
            if t == '' or t in res or t not in g.tensormap:
                continue
            x = g.tensormap[t]
            res[t] = (shape_sig(x), np.dtype(x.dtype).name)
    return res


# ---- referential integrity -----------------------------------------------------------------------
def integrity(g, check_links=True, initials_in_use=False):
    """Independent recomputation of every redundant view of the graph; returns a list of complaints."""
    bad = []
    prod, cons = {}, {}
    for key, n in g.nodemap.items():
        if n.name != key:
            bad.append('nodemap key %r holds node named %r' % (key, n.name))
        for t in n.input:
            cons.setdefault(t, []).append(key)
        for t in n.output:
            prod.setdefault(t, []).append(key)
    for t, p in prod.items():
        if t and len(p) > 1:
            bad.append('tensor %r produced by several nodes %r' % (t, p))
    for view, real, label in ((g.producedby, prod, 'producedby'), (g.consumedby, cons, 'consumedby')):
        for t in set(view) | set(real):
            if t == '':
                continue
            a = sorted(set(view.get(t, [])))
            b = sorted(set(real.get(t, [])))
            if a != b:
                bad.append('%s[%r] = %r but the nodes say %r' % (label, t, list(view.get(t, [])), real.get(t, [])))
    for n in g.nodemap.values():
        for t in list(n.input) + list(n.output):
            if t != '' and t not in g.tensormap:
                bad.append('node %r uses tensor %r that is not in tensormap' % (n.name, t))
        for t in n.input:
            if t == '':
                continue
            if t not in prod and t not in g.initials and t not in g.input:
                bad.append('node %r reads %r that nothing provides' % (n.name, t))
    for t in g.output:
        if t not in prod and t not in g.input and t not in g.initials:
            bad.append('graph output %r is not computed by any node' % t)
    if len(set(g.output)) != len(g.output):
        bad.append('duplicate graph outputs %r' % (g.output,))
    if check_links:
        for key, n in g.nodemap.items():
            for side, lst in (('next', n.nextnodes), ('prev', n.prevnodes)):
                for o in lst:
                    if not hasattr(o, 'op_type'):
                        bad.append('%snodes of %r contains %r, not a node' % (side, key, type(o).__name__))
            if any(not hasattr(o, 'op_type') for o in list(n.nextnodes) + list(n.prevnodes)):
                continue
            nx = {o.name for o in n.nextnodes if o.name in g.nodemap and g.nodemap[o.name] is o}
            want = {c for t in n.output for c in cons.get(t, [])}
            if not want <= nx:
                bad.append('nextnodes of %r = %r misses consumers %r' % (key, sorted(nx), sorted(want - nx)))
    return bad


# ---- artefact decoders -----------------------------------------------------------------------------
class Rd:
    def __init__(self, data):
        self.d = data
        self.o = 0

    def take(self, n):
        if n < 0 or self.o + n > len(self.d):
            raise ValueError('artefact truncated at %d (+%d of %d)' % (self.o, n, len(self.d)))
        b = self.d[self.o:self.o + n]
        self.o += n
        return b

    def i(self, n=4):
        return int.from_bytes(self.take(n), 'little', signed=True)

    def f(self):
        return struct.unpack('<f', self.take(4))[0]

    def s(self):
        e = self.d.find(b'\0', self.o)
        if e < 0:
            raise ValueError('unterminated string at %d' % self.o)
        b = self.d[self.o:e]
        self.o = e + 1
        return bytes(b).decode('utf-8')

    def end(self):
        if self.o != len(self.d):
            raise ValueError('%d trailing bytes' % (len(self.d) - self.o))


INT, FLOAT, STR, FP16, DOUBLE, INT8, UINT8, INT16, UINT16, INT64 = range(10)
NPT = {FLOAT: np.float32, FP16: np.float16, INT: np.int32, INT8: np.int8, UINT8: np.uint8, INT64: np.int64,
       DOUBLE: np.float64, INT16: np.int16, UINT16: np.uint16}


def decode_cg(data):
    r = Rd(data)
    nodes = []
    for _ in range(r.i()):
        name, opt = r.s(), r.s()
        ins = [r.s() for _ in range(r.i())]
        outs = [r.s() for _ in range(r.i())]
        attrs = {}
        for _ in range(r.i()):
            k = r.s()
            n = r.i()
            tp = r.i()
            vals = []
            for _ in range(n):
                if tp == INT:
                    vals.append(r.i())
                elif tp == FLOAT:
                    vals.append(r.f())
                elif tp == STR:
                    vals.append(r.s())
                else:
                    raise ValueError('attribute %s of %s: type tag %d' % (k, name, tp))
            attrs[k] = vals
        nodes.append((name, opt, ins, outs, attrs))
    inits = {}
    for _ in range(r.i()):
        name = r.s()
        tp = r.i()
        shape = [r.i() for _ in range(r.i())]
        dt = np.dtype(NPT[tp])
        n = 1
        for d in shape:
            n *= d
        inits[name] = np.frombuffer(r.take(n * dt.itemsize), dt).reshape(shape)
    r.end()
    return nodes, inits


def decode_se(data):
    r = Rd(data)
    variables = [r.s() for _ in range(r.i())]
    desc = {}
    for _ in range(r.i()):
        name = r.s()
        d = []
        for _ in range(r.i()):
            tp = r.i()
            if tp == INT:
                d.append(r.i())
            elif tp == STR:
                d.append(r.s())
            else:
                raise ValueError('shape description of %s: type tag %d' % (name, tp))
        desc[name] = d
    expr = {}
    for _ in range(r.i()):
        name, src = r.s(), r.s()
        a, b = r.f(), r.f()
        expr[name] = (src, a, b, r.i(), r.i())
    r.end()
    return variables, desc, expr


def decode_cm(data):
    r = Rd(data)
    size = r.i(8)
    blocks = {}
    for _ in range(r.i(8)):
        k = r.s()
        blocks[k] = [r.i(8), r.i(8)]
    mx = {}
    for _ in range(r.i(8)):
        k = r.s()
        mx[k] = r.i(8)
    r.end()
    return size, blocks, mx
