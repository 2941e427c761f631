"""API programs: what one caller does with objects of its own.

gen(rng) -> plan (JSON).  Prog(plan, sb, folder) performs it call by call: todo() lists (label, call, observe); observe(value)
gives everything the caller can see of the call; owned() is a snapshot of every object the caller handed over.
"""
import copy
import hashlib
import os
import re

import numpy as np
import onnx

from . import edits, hist, llmcfg, models, oracle, writers
from .core import Discard

KINDS = {'profile': 3, 'regress_api': 1, 'folding': 1, 'reorder': .7, 'io_modify': 1, 'subgraph': 1, 'subnames': .7, 'opfusion': .7,
         'export': 1, 'model': 4, 'engine': 1.5, 'quant': 1, 'pattern': 1.5, 'edit': 1.5, 'llm': 1.5, 'custom': 1, 'compute': 1, 'build': .7}
BRANCHY = ('profile', 'model', 'engine', 'quant', 'edit', 'custom', 'compute')
HIDDEN = ['default', 'default', 'list', 'set', 'tuple', 'none', 'empty']
OPN = ['Relu', 'Conv', 'Add', 'Identity', 'Constant', 'Reshape', 'MatMul', 'Mul', 'Shape', 'Gather', 'Transpose', 'Softmax', 'Gemm', 'Sigmoid']


def gen(rng, kinds=None, size=(1, 6)):
    w = kinds or KINDS
    kind = rng.choices(list(w), list(w.values()))[0]
    p = {'kind': kind, 'a': rng.randrange(5040), 'path': rng.random() < .35}
    if kind == 'llm':
        p['llm'] = llmcfg.gen_prog(rng)
        p['llm'].pop('vision', None)
        p['llm'].pop('vonly', None)
        return p
    need = {'model': 'SV', 'folding': 'SV', 'engine': 'SA', 'regress_api': 'SA', 'compute': 'SA', 'build': 'SV'}.get(kind, 'S')
    fam = rng.choice(['img', 'seq', 'mat', 'img2', 'ids'])
    p['rec'] = models.gen_recipe(rng, branchy=kind in BRANCHY, need=need, nlayers=size, family=fam, ctl=rng.choice([0, 0, 0, .3]) if need in ('S', 'SV') else 0,
                                 noname=False if kind in ('subnames', 'opfusion') else rng.choice([False, False, True]))
    p['k'] = rng.randrange(len(p['rec']['sizes']))
    p['mcfg'] = rng.choice([None, None, {}, {'constant_folding': True}, {'node_rename': True}, {'verbose': True},
                            {'remove_dangling': False}, {'verbose': True, 'fixed_topk': rng.choice([0, 2])}])
    if kind == 'profile':
        p['hidden'] = rng.choice(HIDDEN)
        p['hid'] = sorted(rng.sample(OPN, rng.randint(1, 4)))
        p['excl'] = rng.choice([None, None, sorted(rng.sample(OPN, rng.randint(1, 3))), ['NoSuchOp']])
        p['exclkind'] = rng.choice(['list', 'set', 'tuple'])
        p['sp'] = rng.choice([None, 't.txt', 't.csv'])
        p['sm'] = rng.choice([None, None, 'o.onnx'])
    if kind in ('model', 'compute'):
        p['ops'] = [o for o in hist.gen_history(rng, rng.randint(1, 5), len(p['rec']['sizes']), {'si_bad': 1, 'vi': 2}, intr=0, allocp=0)]
    if kind == 'edit':
        p['ops'] = [edits.gen(rng) for _ in range(rng.randint(1, 4))]
    if kind == 'quant':
        p['ops'] = [{'n': rng.randrange(20), 'b': rng.choice([-1, 2, 4]), 't': rng.choice(['sym', 'asym', 'bad']), 'bits': rng.choice([4, 8])}
                    for _ in range(rng.randint(1, 3))]
    if kind == 'pattern':
        p['ops'] = [rng.choice(['serial', 'serial', 'names', 'desc', 'convbn', 'shape', 'attr']) for _ in range(rng.randint(1, 3))]
        if rng.random() < .5:
            p['rec']['layers'].insert(0, {'op': 'convbn', 'in': [0, 0, 0], 'p': rng.randrange(720), 'share': False})
    return p


def canon(v, seen=0):
    """Content of any object a caller may own."""
    if isinstance(v, onnx.ModelProto) or isinstance(v, (onnx.GraphProto, onnx.TensorProto)):
        return (type(v).__name__, v.SerializeToString(deterministic=True))
    if isinstance(v, np.ndarray):
        return ('nd', v.dtype.str, v.shape, v.tobytes(), v.flags.writeable)
    if isinstance(v, dict):
        return ('dict', [(k, canon(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [canon(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(map(repr, v)))
    if hasattr(v, '__dict__') and not callable(v):
        return (type(v).__name__, canon(dict(v.__dict__)) if seen < 6 else '')
    return repr(v)


def same(a, b):
    return repr(canon(a)).replace(', True)', ')').replace(', False)', ')') == repr(canon(b)).replace(', True)', ')').replace(', False)', ')')


def err(e):
    return '%s: %s' % (type(e).__name__, re.sub(r'0x[0-9a-f]+', '0x', str(e))[:300])


def layout(arrs, how):
    """The same values in other memory layouts: as made, Fortran order, a strided view, a view of a larger array."""
    out = {}
    for n, x in arrs.items():
        if how == 1 and x.ndim:
            x = np.asfortranarray(x)
        elif how == 2 and x.ndim:
            big = np.zeros(x.shape[:-1] + (x.shape[-1] * 2,), x.dtype)
            big[..., ::2] = x
            x = big[..., ::2]
        elif how == 3:
            big = np.zeros((2,) + x.shape, x.dtype)
            big[1] = x
            x = big[1, ...]
        out[n] = x
    return out


NUM = r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?'


def timeless(text):
    """Printed measurements of elapsed time depend on the clock; everything else must not."""
    text = re.sub(r'((?:Elapsed|time cost) )' + NUM, r'\1T', text)
    return re.sub(r'^\{(?:\'\w+\': ' + NUM + r'(?:, )?)*\}$', lambda m: re.sub(r': ' + NUM, ': T', m.group(0)), text, flags=re.M)


class Prog:
    def __init__(self, plan, sb, folder, given=None):
        """given: objects the caller already owns from an earlier use (see owned)."""
        self.p = plan
        self.sb = sb
        self.dir = folder
        self.kind = plan['kind']
        self.own = {}
        self.made = {}
        self.given = given or {}
        self.g = None
        self.m = None
        self.llm = None
        if self.kind == 'llm':
            self.llm = llmcfg.Prog(plan['llm'], sb, folder + '/')
            for n in ('cfg', 'wmap', 'perf', 'shape'):
                if self.given:
                    setattr(self.llm, n, self.given[n])
                self.own[n] = getattr(self.llm, n)
            return
        self.rec = plan['rec']
        self.b = models.build(self.rec)
        self.k = plan['k'] % len(self.rec['sizes'])
        self.bytes = self.b.proto.SerializeToString(deterministic=True)
        if self.b.branchy is not None:
            self.bytes = self.b.branchy.SerializeToString(deterministic=True)
            c = {'if_fixed_branch': self.rec['ifs']['branch'], 'fixed_topk': self.b.fixed_topk}
            self.p = dict(plan, mcfg=dict(plan.get('mcfg') or {}, **c))

    def sig(self):
        return hashlib.sha256(self.bytes).hexdigest()[:12] if self.llm is None else repr(sorted(self.cfg_of().items(), key=str))

    def cfg_of(self):
        return self.llm.p['cfg']

    # objects -----------------------------------------------------------------------------------
    def mine(self, name, make):
        if name not in self.own:
            v = make()
            if name in self.given and same(self.given[name], v):
                v = self.given[name]
            self.own[name] = v
            self.made[name] = canon(v)      # its content before any call saw it
        return self.own[name]

    def owned(self):
        return {k: canon(v) for k, v in self.own.items()}

    def proto(self):
        if self.kind == 'custom':
            return self.mine('model', self.custom_proto)

        def make():
            p = onnx.ModelProto()
            p.ParseFromString(self.bytes)
            return p
        return self.mine('model', make)

    def source(self):
        if self.p['path']:
            self.sb.disk.write_bytes(self.dir + '/src.onnx', self.bytes)
            return self.dir + '/src.onnx'
        return self.proto()

    def custom_proto(self):
        from onnx import helper as H
        p = onnx.ModelProto()
        p.ParseFromString(self.bytes)
        g = p.graph
        o = g.output[0].name
        g.node.append(H.make_node('MyOp%d' % (self.p['a'] % 3), [o], ['my_out'], name='my_node', domain='my'))
        g.output.append(H.make_tensor_value_info('my_out', g.output[0].type.tensor_type.elem_type, None))
        p.opset_import.append(H.make_opsetid('my', 1))
        return p

    def inputs(self, k=None, style='zeros', d=0):
        k = self.k if k is None else k
        return self.mine('in%d%s%d' % (k, style, d), lambda: layout((models.zeros if style == 'zeros' else
                                                                    lambda b, kk: models.data(b, kk, d))(self.b, k), self.p['a'] // 6 % 4))

    def mcfg(self):
        c = self.p.get('mcfg')
        return None if c is None else self.mine('mcfg', lambda: dict(c))

    # observation -------------------------------------------------------------------------------
    def files(self):
        pre = self.dir + '/'
        return {f[len(pre):]: d for f, d in self.sb.disk.snapshot().items() if f.startswith(pre)}

    def look(self, v=None):
        return (timeless(self.sb.take_out()), self.sb.take_warnings(), self.files(), self.view(v), self.state())

    def view(self, v):
        import onnx_tool
        from onnx_tool.graph import ShapeEngine
        if isinstance(v, onnx_tool.Graph):
            return oracle.full_state(v) if v is not self.g else 'the graph'
        if isinstance(v, ShapeEngine):
            return writers.engine_state(v)
        if isinstance(v, (list, tuple)):
            return [self.view(x) for x in v]
        if isinstance(v, dict):
            return {k: self.view(x) for k, x in v.items()}
        if isinstance(v, set):
            return sorted(map(repr, v))
        if isinstance(v, np.ndarray):
            return oracle.arr_sig(v)
        if isinstance(v, (str, int, float, bytes, type(None), np.generic)):
            return v
        if hasattr(v, 'name'):
            return v.name
        return type(v).__name__

    def state(self):
        if self.llm is not None:
            return self.llm.state() if self.llm.B is not None else None
        return oracle.full_state(self.g) if self.g is not None else None

    # calls -------------------------------------------------------------------------------------
    def load(self):
        import onnx_tool

        def run():
            c = self.mcfg()
            src = self.source()
            self.m = onnx_tool.Model(src) if c is None else onnx_tool.Model(src, c)
            self.g = self.m.graph
        return ('load', run)

    def todo(self):
        """The calls, as a generator: later calls may depend on the results of earlier ones."""
        import onnx_tool
        from onnx_tool import fusion, quantization, serialization
        p, a, d = self.p, self.p['a'], self.dir
        kind = self.kind
        if kind == 'llm':
            for st in self.llm.p['steps']:
                if not self.llm.skip(st):
                    run, _ = self.llm.fn(st)
                    yield 'llm_' + st['op'], run
            return
        src = self.source
        if kind == 'profile':
            def run():
                kw = {}
                if p['hidden'] != 'default':
                    kw['hidden_ops'] = self.mine('hidden', lambda: {'list': list, 'set': set, 'tuple': tuple, 'none': lambda x: None,
                                                                    'empty': lambda x: []}[p['hidden']](p['hid']))
                if p['excl']:
                    kw['exclude_ops'] = self.mine('exclude', lambda: {'list': list, 'set': set, 'tuple': tuple}[p['exclkind']](p['excl']))
                if self.mcfg() is not None:
                    kw['mcfg'] = self.mcfg()
                if p['sp']:
                    kw['save_profile'] = d + '/' + p['sp']
                if p['sm']:
                    kw['save_model'] = d + '/' + p['sm']
                    kw['shape_only'] = a % 3 == 0
                    kw['no_shape'] = a % 5 == 0
                return onnx_tool.model_profile(src(), self.inputs(), **kw)
            yield 'model_profile', run
            if a % 4 == 0:
                yield 'model_profile', run
            return
        if kind == 'regress_api':
            desc, rg = self.regress_args()

            def run():
                se, cg = onnx_tool.model_shape_regress(src(), desc, rg)
                serialization.serialize_shape_engine(se, d + '/e.se')
                serialization.serialize_graph(cg, d + '/c.cg')
                return se, cg
            yield 'model_shape_regress', run
            return
        if kind == 'folding':
            yield 'model_constant_folding', lambda: onnx_tool.model_constant_folding(src(), d + '/o.onnx')
            return
        if kind == 'reorder':
            yield 'model_reorder_nodes', lambda: onnx_tool.model_reorder_nodes(src(), d + '/o.onnx')
            return
        if kind == 'io_modify':
            nm, dt, dims, shapes = self.b.inputs[a % len(self.b.inputs)]
            cio = self.mine('io', lambda: {nm: 'x'.join('q%d' % i if (a >> i) & 1 else str(v) for i, v in enumerate(shapes[0]))})
            yield 'model_io_modify', lambda: onnx_tool.model_io_modify(src(), d + '/o.onnx', cio)
            return
        if kind in ('subgraph', 'subnames', 'opfusion'):
            order = list(models.ordered(self.b.proto).graph.node)
            if kind == 'subgraph':
                c = [o for n in order if n.op_type != 'Constant' for o in n.output]
                i = a % max(1, len(c) - 1)
                tin = self.mine('tin', lambda: [c[i]])
                tout = self.mine('tout', lambda: [c[min(len(c) - 1, i + 1 + a // 7 % 4)]])
                yield 'model_subgraph', lambda: onnx_tool.model_subgraph(src(), in_tensor_names=tin, out_tensor_names=tout, save_folder=d)
                return
            i = a % len(order)
            ns = self.mine('names', lambda: [n.name for n in order[i:i + 1 + a // 5 % 3]])
            if kind == 'subnames':
                yield 'model_subgraph', lambda: onnx_tool.model_subgraph(src(), nodenames=ns, save_folder=d)
            else:
                yield 'model_opfusion', lambda: onnx_tool.model_opfusion(src(), 'Fused', 'fused_x', d + '/o.onnx', nodenames=ns,
                                                                        keep_attr=bool(a % 2))
            return
        if kind == 'export':
            names = None
            if a % 3 == 0:
                names = self.mine('names', lambda: [t.name for t in self.b.proto.graph.initializer][:1 + a // 3 % 3] + ['no such'])
            yield 'model_export', lambda: onnx_tool.model_export_tensors_numpy(src(), tensornames=names, savefolder=d + '/w', fp16=bool(a % 2))
            return
        if kind == 'custom':
            yield 'register', self.register
        if kind == 'build':
            yield from self.build_calls()
            return
        yield self.load()
        g = self.g
        if g is None:
            return
        if kind in ('model', 'compute'):
            for o in p['ops']:
                yield from self.session_op(o)
            if kind == 'compute':
                yield 'infer', lambda: g.shape_infer(self.inputs())
                yield 'plan', g.compress_memory
                yield 'compute', lambda: serialization.serialize_graph(g.get_compute_graph(), d + '/c.cg')
        elif kind == 'engine':
            desc, rg = self.regress_args()
            box = []

            def regress():
                box[:] = [g.shape_regress(desc, rg)]
                return box[0]
            yield 'shape_regress', regress
            if not box:
                return
            for vals in list(self.b.assigns)[:2]:
                def ask():
                    for n, v in vals.items():
                        box[0].update_variable(n, v)
                    box[0].update_variables()
                    return {t: list(box[0].get_tensorshape(t)) for t in sorted(box[0].tensor_desc)}
                yield 'engine', ask
            yield 'serialize', lambda: serialization.serialize_shape_engine(box[0], d + '/e.se')
        elif kind == 'quant':
            for o in p['ops']:
                t = list(g.initials)[o['n'] % len(g.initials)] if g.initials else 'none'
                yield 'quantize', lambda: quantization.graph_quantize(g, t, o['b'], o['t'], o['bits'])
            yield 'save', lambda: self.m.save_model(d + '/q.onnx')
        elif kind == 'edit':
            for i, o in enumerate(p['ops']):
                e = edits.prepare(g, o, uid=i)
                if e is None or not g.nodemap:
                    continue
                yield 'edit_' + e.kind, e.call
            yield 'save', lambda: self.m.save_model(d + '/e.onnx')
        elif kind == 'pattern':
            for i, o in enumerate(p['ops']):
                yield from self.pattern_op(i, o)
            yield 'save', lambda: self.m.save_model(d + '/f.onnx')
        elif kind == 'custom':
            yield 'infer', lambda: g.shape_infer(self.inputs())
            yield 'profile', g.profile
            yield 'table', lambda: g.print_node_map()

    def regress_args(self):
        seq = (list, tuple, list)[self.p['a'] % 3]
        desc = self.mine('desc', lambda: {n: seq(dims) for n, dt, dims, _ in self.b.inputs})

        def ranges():
            r = {}
            for v in self.b.vars:
                vals = sorted(x[v] for x in self.b.assigns)
                r[v] = (tuple, list)[self.p['a'] // 3 % 2]((vals[0], vals[-1] if vals[-1] > vals[0] else vals[0] * 2))
            return r
        return desc, self.mine('range', ranges)

    def session_op(self, o):
        g, d = self.g, self.dir
        k = o.get('k', 0) % len(self.rec['sizes'])
        kind = o['op']
        if kind == 'si':
            yield 'shape_infer', lambda: g.shape_infer(self.inputs(k))
        elif kind == 'si_none':
            yield 'shape_infer', lambda: g.shape_infer(None)
        elif kind == 'si_bad':
            bad = self.mine('bad%d' % k, lambda: {n: np.zeros((2, 1, 3, 2, 1), x.dtype) for n, x in models.zeros(self.b, k).items()})
            yield 'shape_infer_bad', lambda: g.shape_infer(bad)
        elif kind == 'vi':
            yield 'value_infer', lambda: g.value_infer(self.inputs(k, 'data', o.get('d', 0) % 2))
        elif kind in ('prof', 'table'):
            ex = self.mine('ex' + ','.join(o['ex']), lambda: set(o['ex'])) if o.get('ex') else None
            yield 'profile', lambda: g.profile(exclude_ops=ex)
            if kind == 'table':
                f = d + '/' + o['f'] if o.get('f') else None
                yield 'table', lambda: g.print_node_map(f, metric=o.get('metric', 'MACs'), exclude_ops=ex)
        elif kind == 'save':
            yield 'save', lambda: self.m.save_model(d + '/' + o['f'], shape_only=o.get('so', False), no_shape=o.get('ns', False))
        elif kind == 'reorder':
            yield 'reorder', g.graph_reorder_nodes
        elif kind == 'regress':
            desc, rg = self.regress_args()
            yield 'shape_regress', lambda: g.shape_regress(desc, rg)
        elif kind == 'cg':
            yield 'compute_graph', g.get_compute_graph
        elif kind == 'plan':
            yield 'compress_memory', g.compress_memory
        elif kind == 'read':
            names = self.mine('readnames', lambda: list(g.nodemap)[:3])
            ins = self.mine('readins', lambda: list(g.input))
            yield 'read', lambda: [g.get_dynamic_tensors(), g.get_initials_from_nodenames(names), g.get_iotensors(names),
                                   g.topsort_nodes(list(g.nodemap), ins)]

    def pattern_op(self, i, o):
        from onnx_tool import fusion
        g, a = self.g, self.p['a'] + i
        keys = list(g.nodemap)
        if not keys:
            return
        chain = edits.unique_consumer_chain(g, a, 2)
        types = [g.nodemap[c].op_type for c in chain]
        if o == 'shape':
            yield 'removeShapeOps', lambda: fusion.removeShapeOps(g)
        elif o == 'convbn':
            yield 'ConvBNFusion', lambda: fusion.ConvBNFusion(g)
        elif o == 'serial':
            ops = self.mine('ops%d' % i, lambda: list(types))
            yield 'serial_pattern', lambda: self.apply(fusion.createSerialPattern(ops), i)
        elif o == 'names':
            ns = self.mine('pn%d' % i, lambda: list(chain))
            box = []

            def desc():
                box[:] = fusion.create_descs_from_nodenames(g, ns)
                return box
            yield 'create_descs', desc
            if box:
                de = self.mine('desc%d' % i, lambda: copy.deepcopy(box))
                yield 'pattern', lambda: self.apply(fusion.FusionPattern(de), i)
        elif o == 'desc':
            de = self.mine('desc%d' % i, lambda: [
                {'name': str(j), 'op': [t, 'Nothing'] if a % 2 else t, 'attrs': [], 'inport': [] if j == 0 else [[-1, str(j - 1), -1]],
                 'outport': [] if j == len(types) - 1 else [[-1, str(j + 1), -1]]} for j, t in enumerate(types)])
            pat = fusion.FusionPattern(de)
            yield 'search', lambda: pat.search_pattern(g)
            yield 'search', lambda: pat.search_pattern(g)
            yield 'pattern', lambda: self.apply(pat, i)
        elif o == 'attr':
            de = self.mine('desc%d' % i, lambda: [{'name': 'x', 'op': 'Any', 'attrs': [['axis', ('==', '<=', '>')[a % 3], a % 2]],
                                                   'inport': [], 'outport': []}])
            yield 'search', lambda: fusion.FusionPattern(de).search_pattern(g)

    def apply(self, pat, i):
        found = pat.search_pattern(self.g)
        for j, nodes in enumerate(found):
            if all(n in self.g.nodemap for n in nodes):
                self.g.fuse_subgraph_node_names(nodes, 'Fused', 'fu%d_%d' % (i, j), True)
        return found

    def register(self):
        """An operator of the caller's own."""
        import onnx_tool
        from onnx_tool.node import NODE_REGISTRY, Node
        n = self.p['a'] % 3

        class MyNode(Node):
            def shape_infer(self, ins, outs):
                outs[0].update_shape(ins[0].get_shape() + [n + 1])
                outs[0].update_dtype(ins[0].dtype)

            def _profile_core(self, ins, outs):
                return 100 + n
        MyNode.__name__ = 'MyOp%dNode' % n
        NODE_REGISTRY.register(MyNode)

    def build_calls(self):
        """A graph put together by hand, with arrays of the caller."""
        import onnx_tool
        from onnx_tool.utils import ModelConfig
        yield self.load()
        g = self.g
        if g is None:
            return
        w = self.mine('warr', lambda: np.linspace(-1, 1, 12, dtype=np.float32).reshape(3, 4))
        x = self.mine('xarr', lambda: np.linspace(0, 1, 6, dtype=np.float32).reshape(2, 3))
        yield 'add_initial', lambda: g.add_initial('own_w', w)
        yield 'add_dynamic', lambda: g.add_dynamic('own_x', x)
        yield 'update_input', lambda: g.update_input_by_map(self.inputs(style='data'))
        names = self.mine('dump', lambda: [o for n in g.nodemap.values() for o in n.output][:2])
        yield 'add_dump', lambda: g.add_dump_tensors(names)
        yield 'value_infer', lambda: g.value_infer(self.inputs(style='data'))
        t = next((n for n in g.initials if g.tensormap[n].numpy is not None and g.tensormap[n].numpy.dtype.kind == 'f'), None)
        if t is not None:
            arr = self.mine('newval', lambda: np.asarray(g.tensormap[t].numpy + 1, g.tensormap[t].numpy.dtype))
            yield 'update_tensor', lambda: g.tensormap[t].update_tensor(arr)
            yield 'value_infer', lambda: g.value_infer(self.inputs(style='data'))
        yield 'save', lambda: self.m.save_model(self.dir + '/b.onnx')


def perform(prog):
    """All calls without failures: [(label, outcome, observation)]."""
    out = []
    gen_ = prog.todo()
    while True:
        try:
            label, fn = next(gen_)
        except StopIteration:
            return out
        try:
            v = ('ok', fn())
        except SystemExit as e:
            v = ('exc', e)
        except Exception as e:  # noqa
            v = ('exc', e)
        look = prog.look(v[1] if v[0] == 'ok' else None)
        if label == 'register':
            look = None  # a second registration of a name is announced by a warning
        out.append((label, v[0] if v[0] == 'ok' else err(v[1]), look))


def alone(sb, plan, folder):
    os.makedirs(os.path.join(sb.root, folder), exist_ok=True)
    sb.take_out()
    sb.take_warnings()
    return perform(Prog(plan, sb, folder))


def wipe(sb, folder):
    import shutil
    shutil.rmtree(os.path.join(sb.root, folder), ignore_errors=True)
    os.makedirs(os.path.join(sb.root, folder), exist_ok=True)
