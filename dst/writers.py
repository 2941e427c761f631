"""Every artefact writer of the package, as a repeatable call with its inputs, targets and observable state."""
import os
import shutil

import numpy as np
import onnx

from . import env, models, oracle
from .core import Discard
from .simdisk import SimCrash

GPT2MAP = {
    'embedding': {'embed': 'wte', 'pos': 'wpe'}, 'layer_prefix': 'h.',
    'attention': {'input_norm': 'ln_1', 'qkv': 'attn.c_attn', 'q': 'attn.q_proj', 'k': 'attn.k_proj', 'v': 'attn.v_proj',
                  'o': 'attn.c_proj', 'output_norm': 'post_attention_layernorm'},
    'mlp': {'input_norm': 'ln_2', 'gate': 'mlp.gate_proj', 'up': 'mlp.c_fc', 'down': 'mlp.c_proj',
            'gate_up': 'mlp.gate_up_proj', 'output_norm': 'post_feedforward_layernorm'},
    'lm_head': {'input_norm': 'model.norm', 'lm': 'lm_head'}}

KINDS = {'model': 3, 'graph': 1, 'cg': 2, 'se': 2, 'cm': 2, 'txt': 1.5, 'csv': 1.5, 'export': 2.5, 'io_modify': 1, 'folding': 1,
         'reorder_api': .7, 'subgraph': 1.5, 'subgraph_names': 1, 'opfusion': 1, 'profile_api': 1.5, 'llm_save': 1, 'llm_txt': 1}

TINY = {
    'llama': {'architectures': ['LlamaForCausalLM'], '_name_or_path': 'tiny/llama', 'hidden_size': 16, 'intermediate_size': 24,
              'num_attention_heads': 2, 'num_key_value_heads': 1, 'num_hidden_layers': 2, 'vocab_size': 20,
              'hidden_act': 'silu', 'rms_norm_eps': 1e-6, 'max_position_embeddings': 64, 'rope_theta': 10000.0},
    'gpt2': {'architectures': ['GPT2LMHeadModel'], '_name_or_path': 'tiny/gpt2', 'n_embd': 16, 'n_head': 2, 'n_layer': 2, 'n_inner': None,
             'vocab_size': 20, 'activation_function': 'gelu_new', 'layer_norm_epsilon': 1e-5, 'n_positions': 64},
}


def gen(rng, kinds=None):
    w = kinds or KINDS
    return {'w': rng.choices(list(w), list(w.values()))[0], 'a': rng.randrange(720), 'how': rng.choice(['proto', 'path'])}


class Writer:
    def __init__(self, kind, fn, targets, state, inputs=(), obj=None):
        self.obj = obj              # what is serialised
        self.kind = kind
        self.fn = fn                # performs the write; may be called any number of times
        self.targets = targets      # relative names of the files it writes
        self.state = state          # canonical view of everything in memory that the write must not change
        self.inputs = inputs        # files it reads


def model_state(m):
    g = m.graph
    return {'g': oracle.full_state(g), 'proto': m.mproto.SerializeToString(deterministic=True)}


def proto_state(p):
    return p.SerializeToString(deterministic=True)


def engine_state(se):
    return {'v': dict(se.variables), 'd': {k: list(v) for k, v in se.tensor_desc.items()},
            'e': {k: (v[0], v[1].alpha, v[1].beta, v[1].factor, v[1].truncmode) for k, v in se.tensor_epxr.items()},
            'i': {k: list(v) for k, v in se.input_desc.items()}}


def graph_state(g):
    return oracle.full_state(g)


def make(ctx, s, w, k=0):
    """s: hist.Session with its model inferred for size k.  Nothing here is under fault injection."""
    import onnx_tool
    from onnx_tool import serialization
    kind, a = w['w'], w['a']
    m, g = s.m, s.m.graph
    sb = ctx.sb
    src = s.b.proto
    inputs = ()

    def source():
        if w['how'] == 'path':
            return 'src.onnx'
        p = onnx.ModelProto()
        p.ParseFromString(s.bytes)
        return p
    if kind in ('export', 'io_modify', 'folding', 'reorder_api', 'subgraph', 'subgraph_names', 'opfusion', 'profile_api'):
        srcm = source()
        if w['how'] == 'path':
            sb.disk.write_bytes('src.onnx', s.bytes)
            inputs = ('src.onnx',)
            st = lambda: sb.disk.read_bytes('src.onnx')
            stem = 'src'
        else:
            st = lambda: proto_state(srcm)
            stem = ''
        order = list(models.ordered(src).graph.node)
    if kind == 'model':
        so, ns = a % 3 == 1, a // 3 % 3 == 1
        return Writer(kind, lambda: m.save_model('o.onnx', shape_only=so, no_shape=ns), ['o.onnx'], lambda: model_state(m), obj=g)
    if kind == 'graph':
        return Writer(kind, lambda: g.save_model('o.onnx'), ['o.onnx'], lambda: model_state(m), obj=g)
    if kind == 'cg':
        cg = g.get_compute_graph()
        return Writer(kind, lambda: serialization.serialize_graph(cg, 'o.cg'), ['o.cg'], lambda: graph_state(cg), obj=cg)
    if kind == 'se':
        desc, rng_ = s.regress_args()
        try:
            se = g.shape_regress(desc, rng_)
        except SimCrash:
            raise
        except Exception:
            if not s.rec.get('odd'):
                raise
            # sizes in between need not be legal for a model of odd sizes (two halves of an odd size, say)
            raise Discard('sizes between those of the family')
        g.shape_infer(s.inputs(k))
        return Writer(kind, lambda: serialization.serialize_shape_engine(se, 'o.se'), ['o.se'], lambda: engine_state(se), obj=se)
    if kind == 'cm':
        pad = (1, 64, 256)[a % 3]
        plan = g.compress_memory(size_padding=pad)
        mx = {n: int(np.prod(g.tensormap[n].get_shape(), dtype=np.int64)) for n in plan[0]}
        return Writer(kind, lambda: serialization.serialize_memory_compression(plan, mx, 'o.cm'), ['o.cm'],
                      lambda: (repr(plan), repr(mx)), obj=(plan, mx))
    if kind in ('txt', 'csv'):
        ex = None if a % 2 else {'Relu', 'Conv', 'Identity'}
        g.profile(exclude_ops=ex)
        f = 'o.' + kind
        return Writer(kind, lambda: g.print_node_map(f, metric=('MACs', 'FLOPs')[a // 2 % 2], exclude_ops=ex), [f],
                      lambda: (model_state(m), repr(ex and sorted(ex))))
    if kind == 'llm_save' or kind == 'llm_txt':
        from onnx_tool.llm import Builder
        cfg = dict(TINY[('llama', 'gpt2')[a % 2]])
        b = Builder(**cfg)
        b.build_graph([1, 4], GPT2MAP if a % 2 else None)
        b.graph.valid_shape = True
        if a // 2 % 2:
            b.add_kv_cache(16, 4)
        if kind == 'llm_save':
            b.graph.graph_reorder_nodes()
            return Writer(kind, lambda: b.save_graph('o.onnx'), ['o.onnx'], lambda: graph_state(b.graph))
        b.profile()
        f = ('o.txt', 'o.csv')[a // 4 % 2]
        return Writer(kind, lambda: b.print_profile(f), [f], lambda: graph_state(b.graph))
    if kind == 'export':
        folder = (None, 'wts', 'deep/er/wts')[a % 3]
        names = None
        if a // 3 % 3 == 0:
            names = [t for t in g.initials][: 1 + a // 9 % 4] + (['no such tensor'] if a % 2 else [])
        fp16 = bool(a // 27 % 2)
        init = [t.name for t in src.graph.initializer]
        want = init if names is None else [n for n in names if n in init]
        if not want:
            raise Discard('no weights')
        fn = lambda: onnx_tool.model_export_tensors_numpy(srcm, tensornames=names, savefolder=folder, fp16=fp16)
        wr = Writer(kind, fn, None, st, inputs)
        wr.folder, wr.want, wr.fp16 = folder, want, fp16
        return wr
    if kind == 'io_modify':
        nm, dt, dims, shapes = s.b.inputs[a % len(s.b.inputs)]
        cio = {nm: 'x'.join(('q%d' % i if (a >> i) & 1 else str(d)) for i, d in enumerate(shapes[0]))}
        return Writer(kind, lambda: onnx_tool.model_io_modify(srcm, 'o.onnx', cio), ['o.onnx'], lambda: (st(), repr(cio)), inputs)
    if kind == 'folding':
        return Writer(kind, lambda: onnx_tool.model_constant_folding(srcm, 'o.onnx'), ['o.onnx'], st, inputs)
    if kind == 'reorder_api':
        return Writer(kind, lambda: onnx_tool.model_reorder_nodes(srcm, 'o.onnx'), ['o.onnx'], st, inputs)
    if kind == 'subgraph':
        c = [o for n in order if not n.op_type == 'Constant' for o in n.output if o in g.consumedby and
             n.name in g.nodemap and not g.nodemap[n.name].shape_calc]
        if len(c) < 2:
            raise Discard('too few tensors')
        i = a % (len(c) - 1)
        j = i + 1 + a // 7 % (len(c) - i - 1)
        tin, tout = [c[i]], [c[j]]
        if not all(x.nodemap for x in g.get_subgraph(tin, tout)):
            raise Discard('a part without nodes is not written')
        fn = lambda: onnx_tool.model_subgraph(srcm, in_tensor_names=list(tin), out_tensor_names=list(tout), save_folder='./')
        return Writer(kind, fn, ['%s_level%d.onnx' % (stem, i) for i in range(3)], st, inputs)
    if kind == 'subgraph_names':
        ns = [n.name for n in order if n.name]
        if len(ns) != len(set(ns)) or not ns:
            raise Discard('names')
        i = a % len(ns)
        sel = ns[i:i + 1 + a // 5 % 4]
        fn = lambda: onnx_tool.model_subgraph(srcm, nodenames=list(sel), save_folder='./')
        return Writer(kind, fn, ['%s_subgraph.onnx' % stem], st, inputs)
    if kind == 'opfusion':
        ns = [n.name for n in order if n.name]
        if len(ns) != len(set(ns)) or not ns:
            raise Discard('names')
        sel = [ns[a % len(ns)]]
        fn = lambda: onnx_tool.model_opfusion(srcm, 'Fused', 'fused_x', 'o.onnx', nodenames=list(sel), keep_attr=bool(a % 2))
        return Writer(kind, fn, ['o.onnx'], st, inputs)
    if kind == 'profile_api':
        x = s.inputs(k)
        pf = ('p.txt', 'p.csv', None)[a % 3]
        sm = 'o.onnx' if pf is None or a // 3 % 2 else None
        keep = {n: v.tobytes() for n, v in x.items()}
        fn = lambda: onnx_tool.model_profile(srcm, x, save_profile=pf, save_model=sm, shape_only=bool(a // 6 % 2))
        return Writer(kind, fn, [f for f in (pf, sm) if f], lambda: (st(), {n: v.tobytes() for n, v in x.items()}), inputs)
    raise ValueError(kind)


def spoil(wr, n):
    """Put content into memory that the format cannot hold.  -> undo, or None when this writer cannot be spoilt."""
    o = getattr(wr, 'obj', None)
    if o is None:
        return None
    if wr.kind in ('model', 'graph', 'cg'):
        g = o
        node = g.nodemap[list(g.nodemap)[n % len(g.nodemap)]]
        how = n // 7 % (2 if wr.kind != 'cg' else 7)
        if how == 0:
            node.attr['spoilt'] = object()
        elif how == 1:
            node.attr['spoilt'] = [1, 'a'] if wr.kind == 'cg' else [object()]
        elif how == 2:
            node.attr['spoilt'] = 2 ** 40
        elif how == 3:
            node.attr['spoilt'] = 'a\0b'
        elif how == 4:
            node.attr['sp\0oilt'] = 1
        elif how == 5:
            node.attr['spoilt'] = np.zeros(3)
        else:
            c = [t for t in g.initials if g.tensormap[t].numpy is not None]
            if not c:
                return None
            t = g.tensormap[c[n % len(c)]]
            old = t.numpy
            t.numpy = old.astype(np.complex64)

            def undo():
                t.numpy = old
            return undo

        def undo():
            node.attr.pop('spoilt', None)
            node.attr.pop('sp\0oilt', None)
        return undo
    if wr.kind == 'se':
        se = o
        how = n % 3
        if how == 0:
            se.variables['a\0b'] = 1
            return lambda: se.variables.pop('a\0b')
        if how == 1:
            se.tensor_desc['spoilt'] = [1, 2 ** 40]
        else:
            se.tensor_desc['spoilt'] = [1, None]
        return lambda: se.tensor_desc.pop('spoilt')
    if wr.kind == 'cm':
        plan, mx = o
        if n % 2:
            mx['spoilt'] = 2 ** 70
        else:
            mx['spo\0ilt'] = 2
        return lambda: (mx.pop('spoilt', None), mx.pop('spo\0ilt', None))
    return None


def collect(sb, wr):
    """Contents of the files the writer is responsible for."""
    snap = sb.disk.snapshot()
    if wr.targets is None:
        return {f: d for f, d in snap.items() if f.endswith('.npy')}
    return {f: snap.get(f) for f in wr.targets}


def place(sb, wr, targets, content):
    """Give every target an earlier content (None: no file, no folder)."""
    if content is None and getattr(wr, 'folder', None):
        top = wr.folder.split('/')[0]
        if top in ('wts', 'deep'):
            shutil.rmtree(os.path.join(sb.disk.root, top), ignore_errors=True)
    for i, f in enumerate(targets):
        if content is None:
            sb.disk.remove(f)
        else:
            sb.disk.write_bytes(f, content[f] if isinstance(content, dict) else content)
