"""Tiny language-model configurations for every supported architecture, and builder programs over them."""
import copy
import os

import numpy as np

from . import oracle, writers
from .core import Discard

ARCHS = ['LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM',
         'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM', 'Phi3ForCausalLM', 'PhiForCausalLM', 'Phi3SmallForCausalLM',
         'GPTJForCausalLM', 'GPT2LMHeadModel', 'BrandNewForCausalLM']


def gen_cfg(rng, arch=None):
    arch = arch or rng.choice(ARCHS)
    heads = rng.choice([2, 4])
    hd = rng.choice([4, 8])
    L = rng.randint(1, 3)
    c = {'architectures': [arch], '_name_or_path': 'tiny/' + arch, 'hidden_size': heads * hd, 'intermediate_size': rng.choice([16, 24]),
         'num_attention_heads': heads, 'num_key_value_heads': rng.choice([1, heads]), 'num_hidden_layers': L,
         'vocab_size': rng.choice([20, 33]), 'hidden_act': rng.choice(['silu', 'gelu_new']), 'rms_norm_eps': 1e-6,
         'max_position_embeddings': rng.choice([32, 64]), 'rope_theta': rng.choice([10000.0, 10000.0, 500000.0]), 'torch_dtype': 'bfloat16'}
    if rng.random() < .2 and arch in ('LlamaForCausalLM', 'Qwen2ForCausalLM', 'PhiForCausalLM', 'GPTJForCausalLM'):
        del c['rms_norm_eps']
        c['layer_norm_eps'] = 1e-5
    if rng.random() < .25:
        c['attention_bias'] = rng.random() < .5
    if rng.random() < .25:
        c['mlp_bias'] = rng.random() < .6
    if rng.random() < .25:
        c['head_dim'] = rng.choice([4, 6, 12])
    if rng.random() < .2:
        c['final_logit_softcapping'] = 30.0
    if rng.random() < .2:
        c['attn_logit_softcapping'] = 50.0
    if rng.random() < .2:
        c['name'] = 'given/name'
    if arch.startswith('Qwen3_5'):
        c['layer_types'] = [rng.choice(['linear_attention', 'full_attention']) for _ in range(rng.choice([L, L, L, L - 1, L + 1]))]
        if rng.random() < .6:
            c.update(linear_num_key_heads=2, linear_num_value_heads=4, linear_key_head_dim=4, linear_value_head_dim=6,
                     linear_conv_kernel_dim=4)
    if arch in ('Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM'):
        c[rng.choice(['num_experts', 'num_local_experts'])] = rng.choice([4, 8])
        c['num_experts_per_tok'] = rng.choice([1, 2])
        if rng.random() < .7:
            c['moe_intermediate_size'] = 12
        if rng.random() < .5:
            c['shared_expert_intermediate_size'] = 10
    if arch == 'DeepSeekV4ForCausalLM':
        c.update(head_dim=8, q_lora_rank=6, o_lora_rank=4, o_groups=2, rope_head_dim=4, window_size=rng.choice([2, 128]),
                 compress_ratio=rng.choice([0, 4, 8]), index_n_heads=2, index_head_dim=4, index_topk=3)
    if arch == 'MiniMaxM2ForCausalLM' and rng.random() < .5:
        c['rotary_dim'] = 4
    if arch in ('Phi3ForCausalLM', 'Phi3SmallForCausalLM'):
        c['model_type'] = 'phi3' if arch == 'Phi3ForCausalLM' else 'phi3small'
    if arch == 'GPT2LMHeadModel':
        for a, b in (('hidden_size', 'n_embd'), ('num_attention_heads', 'n_head'), ('num_hidden_layers', 'n_layer')):
            c[b] = c.pop(a)
        c['activation_function'] = c.pop('hidden_act')
        del c['intermediate_size'], c['num_key_value_heads'], c['rms_norm_eps']
        c.pop('layer_norm_eps', None)
        c['layer_norm_epsilon'] = 1e-5
        r = rng.random()
        if r < .3:
            c['n_inner'] = None
        elif r < .6:
            c['n_inner'] = 40
        if rng.random() < .5:
            c['n_positions'] = 64
        c.pop('head_dim', None)
    if arch == 'Phi3SmallForCausalLM' and rng.random() < .5:
        c['ff_intermediate_size'] = c.pop('intermediate_size')
    return c


VISION = {'vision_hidden_size': 8, 'vision_num_layers': 1, 'vision_num_heads': 2, 'vision_intermediate_size': 12,
          'vision_patch_size': 2, 'projector_hidden_dim': 10}


NAMED = ['phi3_mini', 'QWen_7B', 'Llama3_8B', 'phi2', 'Qwen2_72B_Instruct', 'llama_31_70B', 'Phi_3_medium_4k_instruct',
         'Phi_3_small_8k_instruct', 'gptj_6b', 'yi_34B', 'llama2_7b']


def resolve(cfg):
    """A private copy of a configuration; the shipped ones are named."""
    cfg = copy.deepcopy(cfg)
    if 'named' in cfg:
        import onnx_tool.model_configs as M
        base = copy.deepcopy(getattr(M, cfg.pop('named')))
        for a, b in (('n_layer', 'num_hidden_layers'),):
            if a in base:
                base[a] = cfg.pop(b)
        base.update(cfg)
        return base
    return cfg


def wmap(cfg):
    if 'named' in cfg:
        return None
    return writers.GPT2MAP if cfg['architectures'][0] == 'GPT2LMHeadModel' else None


PERF = {'half': {'Compute': {'MM': 'FP16', 'MHA': 'FP16', 'Others': 'FP16'}, 'Bits': {'MM': 16, 'MHA': 16, 'Others': 16}},
        'int4': {'Compute': {'MM': 'INT8', 'MHA': 'FP16', 'Others': 'FP32'}, 'Bits': {'MM': 4.5, 'MHA': 8, 'Others': 16}}}


# ------------------------------------------------------------------------------------------------
# builder programs

DEVS = ['H20', 'Gaudi2H', 'A100']


def gen_prog(rng, arch=None, big=False):
    """One caller: configuration, sizes and the steps of its session."""
    cfg = gen_cfg(rng, arch)
    named = rng.random() < .1
    if named:
        cfg = {'named': rng.choice(NAMED), 'num_hidden_layers': rng.choice([1, 2]), 'max_position_embeddings': 64, 'vocab_size': 50}
    p = {'cfg': cfg, 'b': rng.choice([1, 1, 2]), 's': rng.choice([1, 2, 3, 5]), 'pos': rng.random() < .5}
    if rng.random() < .12 and not named:
        cfg.update(VISION)
        if rng.random() < .5:
            cfg['projector_type'] = rng.choice(['mlp', 'linear'])
        p['vision'] = [3, rng.choice([4, 6]), 4]
        p['vonly'] = rng.random() < .6
    steps = [{'op': 'build'}]
    if rng.random() < .6 and not p.get('vonly'):
        n = rng.choice([0, 0, 2, 7])
        p['ctx'] = 24
        steps.append({'op': 'kv', 'n': n})
    perf = rng.choice([None, 'half', 'int4'])
    dev = rng.choice([None, 0, 1, 2])

    def prof():
        return {'op': 'profile', 'perf': rng.choice([perf, perf, None, 'half', 'int4']), 'dev': rng.choice([dev, dev, None, 0, 1, 2])}
    past = 0
    for _ in range(rng.randint(1, 6 if big else 4)):
        r = rng.random()
        if r < .35:
            steps.append(prof())
            if rng.random() < .6:
                steps.append({'op': 'print', 'f': rng.choice([None, None, 't.txt', 't.csv'])})
        elif r < .45:
            steps.append({'op': 'gprofile'})
            steps.append({'op': 'nodemap', 'f': rng.choice([None, 'n.txt', 'n.csv']), 'metric': rng.choice(['MACs', 'FLOPs'])})
        elif r < .6 and not named:
            steps.append({'op': 'save', 'f': 's.onnx'})
        elif 'ctx' in p:
            past = max(0, past + rng.choice([1, 1, 2, 5, -3, 30 if rng.random() < .2 else 1]))
            steps.append({'op': 'past', 'n': past})
            steps.append({'op': 'infer', 's': rng.choice([1, 1, 1, 2, p['s']])})
            steps.append(prof())
            if rng.random() < .5:
                steps.append({'op': 'print', 'f': None})
            if past > 24:
                past = 1
        elif not p.get('vonly'):
            steps.append({'op': 'infer', 's': rng.choice([1, 1, 2, 4])})
            steps.append(prof())
    p['steps'] = steps
    return p


def node_rows(g):
    return [(n.name, n.op_type, repr(getattr(n, 'macs', None)), repr(getattr(n, 'io_params', None)), repr(getattr(n, 'static_params', None)),
             repr(getattr(n, 'kv_size', None)), repr(getattr(n, 'inshape', None)), repr(getattr(n, 'outshape', None)),
             repr(getattr(n, 'llm_profile', None))) for n in g.nodemap.values()]


class Prog:
    """A running builder program.  Objects handed to the tool are kept so that they can be compared afterwards."""

    def __init__(self, plan, sb, prefix='', shared=None):
        self.p = plan
        self.sb = sb
        self.prefix = prefix
        self.cfg = shared if shared is not None else resolve(plan['cfg'])
        self.wmap = copy.deepcopy(wmap(plan['cfg']))
        self.shape = [plan['b'], plan['s']]
        self.vshape = list(plan.get('vision', []))
        self.perf = copy.deepcopy(PERF)
        self.owned = lambda: (self.cfg, self.wmap, self.shape, self.vshape, self.perf)
        self.B = None
        self.cur = plan['s']
        self.n = None
        self.stale = False         # the sizes were changed after the last profile
        self.profiled = None

    def state(self):
        g = self.B.graph
        return {'g': oracle.full_state(g), 'rows': node_rows(g), 'sum': repr(getattr(self.B, 'llm_profile', None)),
                'mem': repr(getattr(self.B, 'context_mem', None)), 'kv': repr(getattr(self.B, 'kv_params', None)), 'file': self.B.get_filename()}

    def files(self, name):
        p = os.path.join(self.sb.root, name)
        if os.path.exists(p):
            with open(p, 'rb') as f:
                return f.read()
        return None

    def fn(self, st):
        """The API calls of one step as a function of no argument, and the function that gives its observable result."""
        import onnx_tool.llm as L
        from onnx_tool.device import Devices
        op = st['op']
        f = st.get('f')
        f = self.prefix + f if f else None
        see = lambda v: self.state()
        if op == 'build':
            def run():
                B = L.Builder(**self.cfg)
                if self.vshape:
                    B.build_vision_graph(self.vshape)
                if not self.p.get('vonly'):
                    B.build_graph(self.shape, *([self.wmap] if self.wmap else []))
                self.B = B
        elif op == 'kv':
            def run():
                self.n = st['n']
                self.B.add_kv_cache(self.p['ctx'], st['n'])
        elif op == 'profile':
            def run():
                self.profiled = None
                d = Devices[DEVS[st['dev']]] if st['dev'] is not None else None
                if st['perf'] is None and d is None:
                    self.B.profile()
                else:
                    self.B.profile(self.perf[st['perf']] if st['perf'] else None, d)
                self.profiled = (st['perf'], st['dev'])
        elif op == 'gprofile':
            def run():
                self.B.graph.valid_shape = True
                self.B.graph.profile()
        elif op == 'print':
            def run():
                self.B.print_profile(f)
            see = lambda v: (self.sb.take_out(), self.files(f) if f else None, self.state())
        elif op == 'nodemap':
            def run():
                self.B.graph.print_node_map(f, metric=st['metric'])
            see = lambda v: (self.sb.take_out(), self.files(f) if f else None, self.state())
        elif op == 'save':
            def run():
                self.B.save_graph(f)
            see = lambda v: (self.files(f), self.state())
        elif op == 'past':
            def run():
                self.n = st['n']
                self.B.set_past_kv_length(st['n'])
        elif op == 'infer':
            def run():
                x = {'ids': np.zeros((self.p['b'], st['s']), np.int64)}
                g = self.B.graph
                if 'position' in g.input and (self.p['pos'] or self.B.arch_config.get('pos_embedding')):
                    x['position'] = np.zeros((self.p['b'], st['s']), np.int64)
                self.cur = st['s']
                g.shape_infer(x)
        else:
            raise Discard(op)
        return run, see

    def skip(self, st):
        if self.B is None:
            return st['op'] != 'build'
        if st['op'] == 'print':
            return self.profiled is None
        return False


def fresh_figures(plan, s, n, perf, dev):
    """What a newly built graph of these sizes gives."""
    import onnx_tool.llm as L
    from onnx_tool.device import Devices
    B = L.Builder(**resolve(plan['cfg']))
    if plan.get('vision'):
        B.build_vision_graph(list(plan['vision']))
    if not plan.get('vonly'):
        w = wmap(plan['cfg'])
        B.build_graph([plan['b'], s], *([w] if w else []))
    if n is not None:
        B.add_kv_cache(plan['ctx'], n)
    B.profile(PERF[perf] if perf else None, Devices[DEVS[dev]] if dev is not None else None)
    return figures(B)


def figures(B):
    g = B.graph
    # reordering the nodes (which a save does) changes the order of rows and of the additions
    return {'rows': sorted((r[0], r[1], r[2], r[3], r[4], r[5], r[8]) for r in node_rows(g)),
            'sum': ['%.9g' % v for v in B.llm_profile], 'mem': ['%.9g' % v for v in B.context_mem],
            'kv': repr(getattr(B, 'kv_params', None)), 'macs': repr(g.macs), 'params': repr(g.params)}
