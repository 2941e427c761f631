"""A decoder-only transformer in plain numpy (float64): the reference for the language-model runtime.

Weights are named as in the files of the model hub; linear weights are [out, in]."""
import io
import json
import math
import struct
import sys
import types

import numpy as np

SAFE = {'F32': np.float32, 'F64': np.float64, 'F16': np.float16}


def arch(cfg):
    """The switches of the architecture, by the published definitions."""
    a = cfg['architectures'][0]
    qb = {'Qwen2ForCausalLM': True, 'Qwen3ForCausalLM': True}.get(a, False)
    ob = False
    if 'attention_bias' in cfg:
        qb = ob = cfg['attention_bias']
    return dict(qkv_bias=qb, o_bias=ob, mlp_bias=cfg.get('mlp_bias', False), qk_norm=a == 'Qwen3ForCausalLM')


def head_dim(cfg):
    return cfg.get('head_dim', cfg['hidden_size'] // cfg['num_attention_heads'])


def weights(cfg, seed, dtype=np.float32):
    """{name in the file: array}"""
    rs = np.random.RandomState(seed)
    H, I, V = cfg['hidden_size'], cfg['intermediate_size'], cfg['vocab_size']
    hd, nh, nk = head_dim(cfg), cfg['num_attention_heads'], cfg['num_key_value_heads']
    s = arch(cfg)

    def lin(o, i):
        return rs.normal(0, 1.2 / math.sqrt(i), (o, i))
    w = {'model.embed_tokens.weight': rs.normal(0, 1, (V, H))}
    for i in range(cfg['num_hidden_layers']):
        p = 'model.layers.%d.' % i
        w[p + 'input_layernorm.weight'] = rs.uniform(.5, 1.5, H)
        for n, o in (('q', nh * hd), ('k', nk * hd), ('v', nk * hd)):
            w[p + 'self_attn.%s_proj.weight' % n] = lin(o, H)
            if s['qkv_bias']:
                w[p + 'self_attn.%s_proj.bias' % n] = rs.normal(0, .3, o)
        w[p + 'self_attn.o_proj.weight'] = lin(H, nh * hd)
        if s['o_bias']:
            w[p + 'self_attn.o_proj.bias'] = rs.normal(0, .3, H)
        if s['qk_norm']:
            w[p + 'self_attn.q_norm.weight'] = rs.uniform(.5, 1.5, hd)
            w[p + 'self_attn.k_norm.weight'] = rs.uniform(.5, 1.5, hd)
        w[p + 'post_attention_layernorm.weight'] = rs.uniform(.5, 1.5, H)
        for n, o, k in (('gate', I, H), ('up', I, H), ('down', H, I)):
            w[p + 'mlp.%s_proj.weight' % n] = lin(o, k)
            if s['mlp_bias']:
                w[p + 'mlp.%s_proj.bias' % n] = rs.normal(0, .3, o)
    w['model.norm.weight'] = rs.uniform(.5, 1.5, H)
    if not cfg.get('tie_word_embeddings'):
        w['lm_head.weight'] = lin(V, H) * 2
    return {k: v.astype(dtype) for k, v in w.items()}


def logits(cfg, w, tokens):
    """Logits after every token of one sequence, all computed at once."""
    w = {k: v.astype(np.float64) for k, v in w.items()}
    s = arch(cfg)
    hd, nh, nk = head_dim(cfg), cfg['num_attention_heads'], cfg['num_key_value_heads']
    T = len(tokens)
    half = hd // 2
    # the tables are single precision by definition of the exporter
    f = 1.0 / (cfg.get('rope_theta', 10000.0) ** (2 * np.arange(half, dtype=np.float32) / hd))
    ang = (np.arange(T, dtype=np.float32)[:, None] * f[None].astype(np.float32)).astype(np.float32)
    cos, sin = np.cos(ang).astype(np.float64), np.sin(ang).astype(np.float64)

    def norm(x, g):
        return x / np.sqrt((x * x).mean(-1, keepdims=True) + cfg['rms_norm_eps']) * g

    def lin(x, n):
        y = x @ w[n + '.weight'].T
        return y + w[n + '.bias'] if n + '.bias' in w else y

    def rope(x):
        a, b = x[..., :half], x[..., half:]
        c, d = cos[:, None], sin[:, None]
        return np.concatenate([a * c - b * d, a * d + b * c], -1)

    def soft(x):
        e = np.exp(x - x.max(-1, keepdims=True))
        return e / e.sum(-1, keepdims=True)
    x = w['model.embed_tokens.weight'][np.asarray(tokens)]
    mask = np.triu(np.full((T, T), -np.inf), 1)
    for i in range(cfg['num_hidden_layers']):
        p = 'model.layers.%d.' % i
        h = norm(x, w[p + 'input_layernorm.weight'])
        q = lin(h, p + 'self_attn.q_proj').reshape(T, nh, hd)
        k = lin(h, p + 'self_attn.k_proj').reshape(T, nk, hd)
        v = lin(h, p + 'self_attn.v_proj').reshape(T, nk, hd)
        if s['qk_norm']:
            q, k = norm(q, w[p + 'self_attn.q_norm.weight']), norm(k, w[p + 'self_attn.k_norm.weight'])
        q, k = rope(q), rope(k)
        k, v = np.repeat(k, nh // nk, 1), np.repeat(v, nh // nk, 1)
        sc = np.einsum('qhd,khd->hqk', q, k) / math.sqrt(hd)
        cap = cfg.get('attn_logit_softcapping')
        if cap:
            sc = np.tanh(sc / cap) * cap
        o = np.einsum('hqk,khd->qhd', soft(sc + mask), v).reshape(T, nh * hd)
        x = x + lin(o, p + 'self_attn.o_proj')
        h = norm(x, w[p + 'post_attention_layernorm.weight'])
        g = lin(h, p + 'mlp.gate_proj')
        if cfg.get('hidden_act', 'silu') == 'silu':
            g = g / (1 + np.exp(-g))
        else:
            g = g * .5 * (1 + np.tanh(math.sqrt(2 / math.pi) * (g + .044715 * g ** 3)))
        x = x + lin(g * lin(h, p + 'mlp.up_proj'), p + 'mlp.down_proj')
    h = norm(x, w['model.norm.weight'])
    y = h @ (w['model.embed_tokens.weight'] if cfg.get('tie_word_embeddings') else w['lm_head.weight']).T
    cap = cfg.get('final_logit_softcapping')
    return np.tanh(y / cap) * cap if cap else y


# -- weight files ----------------------------------------------------------------------------------
def pack(w):
    """The bytes of a weight file."""
    head, data, off = {}, [], 0
    for k in sorted(w):
        a = np.ascontiguousarray(w[k])
        b = a.tobytes()
        head[k] = {'dtype': {v: n for n, v in SAFE.items()}[a.dtype.type], 'shape': list(a.shape), 'data_offsets': [off, off + len(b)]}
        data.append(b)
        off += len(b)
    h = json.dumps(head).encode()
    return struct.pack('<Q', len(h)) + h + b''.join(data)


class SafeOpen:
    """Reader of that format with the interface of safetensors.safe_open."""

    def __init__(self, path, framework='pt', device='cpu'):
        self.path = path

    def __enter__(self):
        with open(self.path, 'rb') as f:
            data = f.read()
        n = len(data) >= 8 and struct.unpack('<Q', data[:8])[0]
        if len(data) < 8 or len(data) < 8 + n:
            raise ValueError('Error while deserializing header: InvalidHeaderLength')
        self.head = json.loads(data[8:8 + n])
        self.data = data[8 + n:]
        if max([m['data_offsets'][1] for m in self.head.values()] or [0]) != len(self.data):
            raise ValueError('Error while deserializing header: MetadataIncompleteBuffer')
        return self

    def __exit__(self, *a):
        return False

    def keys(self):
        return list(self.head)

    def get_tensor(self, k):
        import torch
        m = self.head[k]
        a = np.frombuffer(self.data[m['data_offsets'][0]:m['data_offsets'][1]], SAFE[m['dtype']]).reshape(m['shape']).copy()
        return torch.from_numpy(a)


class Tokenizer:
    eos_token_id = None

    def __init__(self, eos):
        self.eos_token_id = self.pad_token_id = eos

    def encode(self, text, **k):
        return [int(t) for t in text.split()]

    def decode(self, ids, skip_special_tokens=False):
        return ' '.join('%d' % t for t in ids if not (skip_special_tokens and t == self.eos_token_id))


EOS = {}


def install():
    s = types.ModuleType('safetensors')
    s.safe_open = SafeOpen
    t = types.ModuleType('transformers')

    class AutoTokenizer:
        @staticmethod
        def from_pretrained(name, **k):
            if name not in EOS:
                raise OSError('no such model ' + name)
            return Tokenizer(EOS[name])
    t.AutoTokenizer = AutoTokenizer
    sys.modules['safetensors'] = s
    sys.modules['transformers'] = t
