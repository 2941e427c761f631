"""P22: decoding a language model through the cached runtime equals running the whole sequence from scratch."""
import hashlib
import json
import math
import os
import sys

import numpy as np

from .. import core, env, hist, llmref, torchshim
from ..core import REPO, short

torchshim.install()
llmref.install()
if os.path.join(REPO, 'inference') not in sys.path:
    sys.path.insert(1, os.path.join(REPO, 'inference'))
env.preload()
import infer  # noqa
import kernels  # noqa
import memory_pool  # noqa
import llm_infer  # noqa
import benchmark.llm_test  # noqa
from onnx_tool.llm import Builder  # noqa

RUNS = {'quick': 700, 'thorough': 40000}
RULE = ('one or two language models of random architecture, head layout, depth, vocabulary, options and cache size, exported by the builder and '
        'loaded through the simulated disk (weights in a weight file of any element type and order, or inside the model file); a seeded '
        'history of 4-18 operations: prefill with or without a cleared cache, decoding in chunks of any length, going back to an '
        'earlier position, generation with any length, end token, temperature and selection, unsuitable requests, requests in which an '
        'operator kernel dies half-way, an allocation is refused, a line raises or the clock jumps, runs of the command line; every '
        'answer is compared with the logits of the whole sequence computed at once; non-trivial: two requests on one cache or a fault fired')
STATES = '(operation, outcome, cached or not, position changed how, outcome before) tuples'
REAL = ('inference/llm_infer.py, inference/infer.py, inference/kernels.py, inference/memory_pool.py, benchmark/llm_test.py (cache planner), '
        'onnx_tool builder, file writer and loader, shape engine')
STUB = ('torch (array semantics over numpy, refused allocations, half-done writes), the weight-file reader (reads the real format through the '
        'simulated disk), the tokenizer (numbers as words), file device, clock, random draws, output')
ASSUME = ['torch, safetensors and transformers are not installed here: substitutes implement what the runtime calls by their documentation',
          'the reference is a transformer in plain numpy at double precision written from the published definitions',
          'cached rows at and after the position of a failed request are unspecified until they are written again',
          'where two tokens are equally likely within rounding, either may be chosen']
LEVEL_NOTE = 'the architectures the command line accepts (Llama, Qwen2, Qwen3); one thread per runtime'
ARCHS = ['LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM']
BAD = ['no_ids', 'no_position', 'no_past', 'rank', 'conflict', 'long', 'overflow', 'vocabulary', 'cache_shape']


excuse = torchshim.excuse


def gen_model(rng, big):
    nk = rng.choice([1, 1, 2, 2, 3])
    nh = nk * rng.choice([1, 1, 2, 3])
    hd = rng.choice([2, 4, 4, 6, 8])
    m = {'architectures': [rng.choice(ARCHS)], 'name': 'tiny', 'num_attention_heads': nh, 'num_key_value_heads': nk,
         'num_hidden_layers': rng.choice([1, 1, 2, 2, 3]), 'vocab_size': rng.choice([5, 17, 33, 64]), 'hidden_act': rng.choice(['silu'] * 4 + ['gelu_new']),
         'rms_norm_eps': rng.choice([1e-6, 1e-5, 1e-2]), 'rope_theta': rng.choice([10000.0, 1e6, 50.0]), 'intermediate_size': rng.choice([5, 12, 24])}
    if rng.random() < .5:
        m['head_dim'] = hd
        m['hidden_size'] = rng.choice([4, 7, 10, 16])
    else:
        m['hidden_size'] = nh * hd
    if rng.random() < .5:
        m['tie_word_embeddings'] = rng.random() < .7
    if rng.random() < .4:
        m['attention_bias'] = rng.random() < .6
    if rng.random() < .2:
        m['mlp_bias'] = rng.random() < .7
    if rng.random() < .2:
        m['attn_logit_softcapping'] = rng.choice([0.5, 2.0, 30.0])
    S = rng.randint(1, 10 if not big else 14)
    ctxlen = rng.randint(max(2, S), S + 9)
    if rng.random() < .8:
        m['max_position_embeddings'] = ctxlen + rng.randint(1, 9) if rng.random() < .8 else max(2, ctxlen - rng.randint(1, 4))
    return {'cfg': m, 'S': S, 'ctx': ctxlen, 'kv': rng.random() < .87, 'batch': 2 if rng.random() < .12 else 1, 'w': rng.randrange(1000),
            'wdt': rng.choice(['float32', 'float32', 'float32', 'float64', 'float16']), 'inside': rng.random() < .2,
            'nobias': rng.random() < .5, 'dt': 'float64' if rng.random() < .2 else 'float32'}


def gen(rng, tier, idx):
    big = tier == 'thorough'
    ms = [gen_model(rng, big)]
    if rng.random() < .45:
        q = rng.random()
        m = gen_model(rng, big) if q < .4 else json.loads(json.dumps(ms[0]))
        m['w'] = rng.randrange(1000)
        if .4 <= q < .75:      # the same shapes, another number or two
            for _ in range(rng.randint(1, 2)):
                n = rng.choice(['rope_theta', 'rope_theta', 'rms_norm_eps', 'attn_logit_softcapping', 'hidden_act'])
                m['cfg'][n] = rng.choice({'rope_theta': [10000.0, 1e6, 50.0], 'rms_norm_eps': [1e-6, 1e-5, 1e-2], 'attn_logit_softcapping': [.5, 2., 30.],
                                          'hidden_act': ['silu', 'gelu_new']}[n])
        elif .75 <= q < .9:
            m['dt'] = 'float64' if m['dt'] == 'float32' else 'float32'
        ms.append(m)
    for m in ms:
        m['load'] = {}
        r = rng.random()
        if r < .08:
            m['load'] = {'at': hist.log_at(rng, 4.3), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}
        elif r < .12:
            m['load'] = {'fault': ['alloc', rng.randint(0, 30)]}
        elif r < .18:
            m['load'] = {'disk': [rng.choice([{'op': 'openr', 'nth': rng.randint(0, 3), 'err': 'EIO'}, {'op': 'read', 'nth': rng.randint(0, 4), 'err': 'EIO'},
                                             {'op': 'shortread', 'sizes': [rng.choice([1, 7, 100, 4000])]}])]}
        elif r < .22:
            m['load'] = {'cut': round(rng.random() * .99, 3)}
        elif r < .26:
            m['load'] = {'drop': rng.randrange(40)}
    ops = []
    n = rng.randint(4, 18 if big else 12)
    for i in range(n):
        r = rng.random()
        o = {'op': 'feed', 'r': rng.randrange(len(ms)), 'n': rng.randint(1, 5) if rng.random() < .7 else rng.randint(1, 14), 't': rng.randrange(10000)}
        if rng.random() < .12:
            o['debug'] = 1
        if rng.random() < .15:
            o['profile'] = 1
        q = rng.random()
        o['where'] = 'on' if q < .6 else 'back' if q < .75 else 'start'
        if o['where'] == 'start' and rng.random() < .5:
            o['clear'] = 1
        if rng.random() < .15:
            o['repeat'] = 1
        if r < .45:
            pass
        elif r < .55:
            o['bad'] = rng.choice(BAD)
        elif r < .64:
            o['fault'] = [rng.choice(['alloc', 'torn', 'torn']), round(rng.random(), 3)]
        elif r < .72:
            o['at'] = hist.log_at(rng, 3.6)
            o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])
        elif r < .76:
            o['clock'] = {'jumps': [[rng.randint(1, 6), rng.choice([-1e6, -3.5, 1e6])]], 'stall': rng.random() < .2}
            o['profile'] = 1
        elif r < .96:
            o = {'op': 'gen', 'r': o['r'], 'p': rng.randint(1, 6) if rng.random() < .9 else rng.randint(7, 16), 't': o['t'],
                 'max': rng.randint(0, 14), 'temp': rng.choice([0.0, 0.0, 0.0, 0.7, 2.0]), 'topk': rng.choice([0, 0, 1, 2, 4]),
                 'verbose': int(rng.random() < .3), 'profile': int(rng.random() < .25), 'eos': rng.choice([None, None, 'at', 'at', 'any']), 'e': rng.randrange(8)}
            q = rng.random()
            if q < .12:
                o['fault'] = [rng.choice(['alloc', 'torn']), round(rng.random() * 6, 3)]
            elif q < .24:
                o['at'] = hist.log_at(rng, 4.2)
                o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            elif q < .34:
                o['clock'] = {'jumps': [[rng.randint(1, 9), rng.choice([-1e6, -3.5, 1e6])]], 'stall': rng.random() < .2}
        else:
            o = {'op': 'cli', 'r': o['r'], 'p': rng.randint(1, 6), 't': o['t'], 'max': rng.randint(1, 10), 'flags': rng.choice([[], ['--verbose'], ['--profile']]),
                 'twice': int(rng.random() < .4)}
            if rng.random() < .3:
                o['disk'] = [rng.choice([{'op': 'write', 'nth': rng.randint(0, 3), 'err': 'ENOSPC'}, {'op': 'openr', 'nth': rng.randint(0, 4), 'err': 'EIO'},
                                         {'op': 'close', 'nth': 0, 'err': 'EIO'}])]
        ops.append(o)
    for r in range(len(ms)):
        ops.append({'op': 'feed', 'r': r, 'n': 3, 't': 77, 'where': 'start'})
        ops.append({'op': 'feed', 'r': r, 'n': 2, 't': 78, 'where': 'on'})
    return {'models': ms, 'ops': ops}


def digest(gi):
    return {n: (str(t.a.dtype), tuple(t.a.shape), hashlib.sha256(np.ascontiguousarray(t.a).tobytes()).hexdigest()[:12])
            for n, t in gi._constant_tensors.items()}


class Unit:
    """One model, its files, its runtime, and what its cache must hold."""

    def __init__(self, ctx, m, name):
        self.ctx, self.m, self.name = ctx, m, name
        self.cfg = m['cfg']
        w = llmref.weights(self.cfg, m['w'], np.dtype(m['wdt']).type)
        if m['nobias'] and self.cfg['architectures'] == ['Qwen3ForCausalLM'] and 'attention_bias' not in self.cfg:
            w = {k: v for k, v in w.items() if not k.endswith('proj.bias')}
        self.w = w
        self.tokens = [[] for _ in range(m['batch'])]
        self.tol = 5e-5 if m['dt'] == 'float32' else 5e-8
        self.maxpos = self.cfg.get('max_position_embeddings', 4096)
        self.points = None
        self.L = None
        self.cache = {}

    def build(self):
        """Export and store the files."""
        m = self.m
        B = Builder(**json.loads(json.dumps(self.cfg)))
        B.build_graph([m['batch'], m['S']])
        if m['kv']:
            B.add_kv_cache(m['ctx'], 0)
        if m['inside']:
            for n, t in B.graph.tensormap.items():
                a = self.w.get(n)
                if n == 'lm_head.weight' and self.cfg.get('tie_word_embeddings'):
                    a = self.w['model.embed_tokens.weight']
                if a is not None:
                    a = a.astype(np.float32)
                    t.update_tensor(np.ascontiguousarray(a.T) if a.ndim == 2 and n != 'model.embed_tokens.weight' else a)
        B.save_graph(self.name + '.onnx')
        with open(self.name + '.safetensors', 'wb') as f:
            f.write(llmref.pack(self.w))

    def make(self, st=None):
        import torch
        llmref.EOS[self.name] = None
        return llm_infer.LLMInfer(self.name + '.onnx', model_name=self.name, safetensors_path=None if self.m['inside'] else st or self.name + '.safetensors',
                                  weight_map=llm_infer.get_qwen3_weight_map(self.cfg), config=self.cfg, max_seq_len=self.m['S'],
                                  dtype=getattr(torch, self.m['dt']))

    def logits(self, toks):
        """Reference logits of a whole sequence."""
        key = tuple(toks)
        if key not in self.cache:
            w = self.w if not self.m['inside'] else {k: v.astype(np.float32) for k, v in self.w.items()}
            w = {k: v.astype(self.m['dt']) for k, v in w.items()}
            self.cache[key] = llmref.logits(self.cfg, w, toks)
        return self.cache[key]

    def words(self, seed, n):
        rs = np.random.RandomState(seed)
        return [int(x) for x in rs.randint(0, self.cfg['vocab_size'], n)]

    def close(self, got, want):
        """None or how far it is."""
        if got.shape != want.shape:
            return 'shape %s instead of %s' % (got.shape, want.shape)
        lim = self.tol * (1 + np.abs(want).max())
        d = np.abs(got.astype(np.float64) - want).max()
        return None if d <= lim else 'off by %.3g (allowed %.3g)' % (d, lim)


def run(plan, ctx):
    FAULTS = torchshim.FAULTS
    us = []
    nfired = 0
    for i, m in enumerate(plan['models']):
        u = Unit(ctx, m, 'model%d' % i)
        u.build()
        nfired += load(ctx, u)
        us.append(u)
    sb = ctx.sb
    sb.take_out()
    pairs = 0
    for i, op in enumerate(plan['ops']):
        u = us[op['r'] % len(us)]
        other = [(v, digest(v.L.engine), v.L.engine.kv_pool._pool.a.tobytes() if v.L.engine.kv_pool else None) for v in us if v is not u]
        if op['op'] == 'feed':
            k = feed(ctx, u, i, op)
        elif op['op'] == 'gen':
            k = generate(ctx, u, i, op)
        else:
            k = cli(ctx, u, i, op)
        pairs += k[0]
        nfired += k[1]
        dg = digest(u.L.engine)
        ctx.check(dg == u.weights, 'weights_changed', lambda: 'step %d' % i)
        for v, d, c in other:
            ctx.check(digest(v.L.engine) == d and (not v.L.engine.kv_pool or v.L.engine.kv_pool._pool.a.tobytes() == c), 'other_runtime_changed',
                      lambda: 'step %d' % i)
        sb.take_out()
    ctx.nontrivial = pairs > 0 or nfired > 0


def load(ctx, u):
    FAULTS = torchshim.FAULTS
    ld = u.m['load']
    n = 0
    if ld:
        st = None
        must = None
        if 'cut' in ld and not u.m['inside']:
            data = llmref.pack(u.w)
            with open('cut.safetensors', 'wb') as f:
                f.write(data[:int(len(data) * ld['cut'])])
            st, must = 'cut.safetensors', 'the weight file is cut off'
            ctx.fault('weight_file_cut')
        elif 'drop' in ld and not u.m['inside']:
            names = [k for k in sorted(u.w) if not k.endswith('.bias')]
            gone = names[ld['drop'] % len(names)]
            with open('gap.safetensors', 'wb') as f:
                f.write(llmref.pack({k: v for k, v in u.w.items() if k != gone}))
            st, must = 'gap.safetensors', '%s is not in the weight file' % gone
            ctx.fault('weight_missing')
        n0 = len(FAULTS.fired)
        if 'fault' in ld:
            FAULTS.arm(*ld['fault'])

        def first():
            L = u.make(st)
            if must:
                ask(L, u, u.words(0, 1), 0, {})
            return L
        r, fired = hist.call(ctx, first, ld.get('at'), ld.get('exc'), None, ld.get('disk'))
        if 'fault' in ld:
            FAULTS.clear()
            for x in FAULTS.fired[n0:]:
                ctx.fault('torch_' + x)
                fired.append('torch_' + x)
        n += len(fired) + bool(must)
        if must:
            ctx.check(r[0] == 'exc', 'incomplete_weights_accepted', must)
        else:
            ctx.check(r[0] == 'ok' or fired, 'construction_fails', lambda: short(r[1]))
        ctx.log('load', hist.exc_name(r), fired)
    r, _ = hist.call(ctx, u.make)
    if r[0] == 'exc':
        ctx.violate('construction_fails', short(r[1]), type(r[1]).__name__)
    u.L = r[1]
    u.weights = digest(u.L.engine)
    return n


def request(L, u, toks, past, feeds=()):
    import torch
    toks = toks if isinstance(toks[0], list) else [toks] * u.m['batch']
    f = {'ids': torch.from_numpy(np.array(toks, np.int64)),
         'position': torch.from_numpy(np.array([list(range(past, past + len(toks[0])))] * len(toks), np.int64))}
    if u.m['kv']:
        f['n_past'] = torch.from_numpy(np.array(past, np.int64))
    f.update(feeds)
    return f


def ask(L, u, toks, past, flags, feeds=()):
    r = L.engine.forward(request(L, u, toks, past, feeds), **flags)
    return np.array(r[L.logits_name].a)


def guarded(ctx, fn, op, u):
    """Run fn under the faults of the operation."""
    FAULTS = torchshim.FAULTS
    n0 = len(FAULTS.fired)
    p0 = FAULTS.count
    FAULTS.resized = 0
    if op.get('fault'):
        FAULTS.arm(op['fault'][0], int(op['fault'][1] * (u.points or 40)))
    r, fired = hist.call(ctx, fn, op.get('at'), op.get('exc'), None, op.get('disk'), op.get('clock'))
    if op.get('fault'):
        FAULTS.clear()
        for x in FAULTS.fired[n0:]:
            ctx.fault('torch_' + x)
            fired.append('torch_' + x)
    if r[0] == 'ok' and not fired and op['op'] == 'feed':
        u.points = FAULTS.count - p0
    return r, fired


def feed(ctx, u, i, op):
    """One request to the graph runtime."""
    import torch
    L, m = u.L, u.m
    S, C = m['S'], m['ctx']
    have = len(u.tokens[0])
    bad = op.get('bad')
    if bad == 'overflow' and not (m['kv'] and S >= 2):
        bad = None
    n = min(op['n'], S)
    where = op['where'] if m['kv'] else 'start'
    past = have if where == 'on' else op['t'] % (have + 1) if where == 'back' else 0
    if m['kv'] and past + n > C and bad != 'overflow':
        past = max(0, min(past, C - n))
    if past + n > u.maxpos and bad != 'overflow':
        past, n = 0, min(n, u.maxpos)
    toks = [u.words(op['t'] + 31 * b, n) for b in range(m['batch'])]
    if op.get('repeat') and past + n <= have:      # the same tokens again
        toks = [t[past:past + n] for t in u.tokens]
    feeds, must = {}, None
    drop = None
    if bad == 'no_ids':
        drop, must = 'ids', 'ids is missing'
    elif bad == 'no_position':
        drop, must = 'position', 'position is missing'
    elif bad == 'no_past' and m['kv']:
        drop, must = 'n_past', 'n_past is missing'
    elif bad == 'rank':
        feeds['ids'] = torch.from_numpy(np.array(toks[0], np.int64))
        must = 'ids has one dimension'
    elif bad == 'conflict':
        feeds['position'] = torch.from_numpy(np.zeros((m['batch'], n + 1), np.int64))
        must = 'ids and position differ in length'
    elif bad == 'long':
        toks = [u.words(op['t'] + b, S * 2 + 9) for b in range(m['batch'])]
        must = 'more tokens than the model was exported for'
        past = 0
    elif bad == 'overflow':
        n = max(n, 2)
        toks = [u.words(op['t'] + 31 * b, n) for b in range(m['batch'])]
        past = C - n + 1 + op['t'] % n
        feeds['position'] = torch.from_numpy(np.array([list(range(n))] * m['batch'], np.int64))
        must = 'the tokens do not fit into the cache'
        if n > u.maxpos:
            feeds.pop('position')
    elif bad == 'vocabulary':
        toks[0][-1] = u.cfg['vocab_size'] + op['t'] % 3
        must = 'a token is not in the vocabulary'
    elif bad == 'cache_shape' and m['kv']:
        s = list(L.engine._cg.tensormap['kv_cache'].get_shape())
        s[1 + op['t'] % 3] += 1
        feeds['kv_cache'] = torch.from_numpy(np.zeros(s, np.float32))
        must = 'the given cache has another shape'
    else:
        bad = None
    if bad:
        ctx.fault('bad_request_' + bad)
    elif op.get('clear') and m['kv']:
        feeds['kv_cache'] = torch.from_numpy(np.zeros(L.engine._cg.tensormap['kv_cache'].get_shape(), np.float32))
    req = request(L, u, toks, past, feeds)
    if drop:
        del req[drop]
    kept = {k: t.a.tobytes() for k, t in req.items()}
    flags = {q: True for q in ('debug', 'profile') if op.get(q)}

    def go():
        r = L.engine.forward(req, **flags)
        if op.get('profile'):
            L.engine.print_profile(r['__profile__'])
        return np.array(r[L.logits_name].a)
    r, fired = guarded(ctx, go, op, u)
    how = 'first' if not have else 'on' if past == have else 'back' if past else 'start'
    ctx.state('feed', bad or (fired or ['plain'])[0], r[0], m['kv'], how, n == 1, sorted(flags))
    ctx.log(i, 'feed', op['r'], past, n, bad, hist.exc_name(r) if r[0] == 'exc' else r[1].shape, fired)
    ctx.check(all(t.a.tobytes() == kept[k] for k, t in req.items()), 'request_modified', lambda: 'step %d' % i)
    if must and not (bad == 'cache_shape' and fired):
        ctx.check(r[0] == 'exc', 'unsuitable_request_answered', lambda: 'step %d: %s' % (i, must), bad)
    if r[0] == 'exc':
        if not must and not fired:
            ctx.violate('request_fails', 'step %d, %d tokens at position %d of %d: %s' % (i, n, past, have, short(r[1])), type(r[1]).__name__)
        keep = min(past, have)
        if bad in ('no_ids', 'no_position', 'no_past', 'rank', 'conflict', 'cache_shape'):
            keep = have      # refused before anything was touched
        u.tokens = [t[:keep] for t in u.tokens]
        return 0, len(fired) + bool(bad)
    if not must:
        for b in range(m['batch']):
            seq = u.tokens[b][:past] + toks[b]
            want = u.logits(seq)[past:]
            d = u.close(r[1][b], want)
            if d:
                ctx.violate('wrong_logits', 'step %d, %d tokens at position %d after %d cached tokens (row %d): %s' % (i, n, past, have, b, d))
        if m['kv']:
            u.tokens = [t[:past] + x for t, x in zip(u.tokens, toks)]
    return int(past > 0), len(fired)


def limits(u, plen, total):
    """Whether the generation may be refused: it needs more room than the model has."""
    m = u.m
    warm = min(plen, 4)
    if m['batch'] != 1 or plen == 0 or plen > m['S'] or plen > u.maxpos:
        return True
    if m['kv']:
        return total - 1 > m['ctx'] or warm + 1 > m['ctx'] or total - 1 > u.maxpos or warm + 1 > u.maxpos or plen > m['ctx']
    return total - 1 > m['S'] or total - 1 > u.maxpos or warm + 1 > u.maxpos


def generate(ctx, u, i, op):
    L, m = u.L, u.m
    V = u.cfg['vocab_size']
    prompt = u.words(op['t'], op['p'])
    if m['batch'] == 1 and op['t'] % 5:
        prompt = prompt[:min(m['S'], u.maxpos, m['ctx'] if m['kv'] else 99)]
    total = op['max']
    eos = None
    if op['eos'] == 'any':
        eos = op['e'] % V
    elif op['eos'] == 'at' and len(prompt) <= u.maxpos:
        seq = list(prompt)
        for _ in range(op['e'] % 4 + 1):
            if len(seq) > u.maxpos:
                break
            seq.append(int(np.argmax(u.logits(seq)[-1])))
        eos = seq[-1]
    if eos in prompt:
        prompt = [t if t != eos else (t + 1) % V for t in prompt]
    L.tokenizer.eos_token_id = eos
    topk = min(op['topk'], V)
    torchshim.DRAWS.seed(op['t'])
    feeds = {}
    r, fired = guarded(ctx, lambda: L.generate(' '.join(map(str, prompt)), max_length=total, temperature=op['temp'], top_k=topk,
                                              verbose=bool(op['verbose']), profile=bool(op['profile'])), op, u)
    draws = torchshim.DRAWS.log
    ctx.state('generate', r[0], (fired or ['plain'])[0], m['kv'], op['temp'] > 0, topk > 0, op['eos'])
    ctx.log(i, 'generate', op['r'], prompt, total, eos, op['temp'], topk, hist.exc_name(r) if r[0] == 'exc' else r[1], fired)
    u.tokens = [[] for _ in range(m['batch'])]
    if r[0] == 'exc':
        if not fired and not limits(u, len(prompt), total):
            ctx.violate('generation_fails', 'step %d, prompt of %d, %d in all: %s' % (i, len(prompt), total, short(r[1])), type(r[1]).__name__)
        return 0, len(fired) + (not fired)
    ctx.check(total <= len(prompt) or len(prompt) <= m['S'] and m['batch'] == 1, 'unsuitable_request_answered', lambda: 'step %d: prompt of %d tokens' % (i, len(prompt)), 'prompt')
    out = [int(t) for t in r[1].split()]
    ctx.check(out[:len(prompt)] == prompt, 'prompt_changed', lambda: 'step %d: %r starts with %r' % (i, out, prompt))
    seq = verify(ctx, u, i, prompt, out, total, eos, op['temp'], topk, draws, m['kv'])
    if m['kv'] and len(seq) > len(prompt):
        u.tokens = [seq[:-1]]
    return 1, len(fired)


def verify(ctx, u, i, prompt, out, total, eos, temp, topk, draws, kv):
    """Every token after the prompt against the reference; returns the tokens produced (with an end token)."""
    V = u.cfg['vocab_size']
    ctx.check(len(out) <= max(total, len(prompt)), 'too_many_tokens', lambda: 'step %d: %d tokens, at most %d asked for' % (i, len(out), total))
    seq = list(prompt)
    want_more = list(out[len(prompt):])
    j = 0
    while len(seq) < total:
        if len(seq) > u.maxpos:
            break
        y = u.logits(seq)[-1]
        lim = 2 * u.tol * (1 + np.abs(y).max())
        tok = want_more[j] if j < len(want_more) else eos
        if tok is None:
            ctx.violate('too_few_tokens', 'step %d: %d tokens instead of %d' % (i, len(out), total))
        if temp > 0:
            ctx.check(j < len(draws), 'not_sampled', lambda: 'step %d token %d' % (i, j))
            p, drawn = draws[j]
            p = p.astype(np.float64) / p.sum()
            few = p.size != V  # drawn among the candidates only, in an order of the engine's own
            ctx.check(few or drawn == tok, 'drawn_token_not_used', lambda: 'step %d token %d: %d instead of %d' % (i, j, tok, drawn))
            z = y / temp
            e = np.exp(z - z.max())
            q = e / e.sum()
            if topk:
                o = np.argsort(-q, kind='stable')
                amb = topk < V and z[o[topk - 1]] - z[o[topk]] < lim / temp * 2
                keep = np.zeros(V, bool)
                keep[o[:topk]] = True
                if amb:
                    ctx.check(int((p > 0).sum()) <= topk, 'wrong_distribution', lambda: 'step %d token %d: more than %d candidates' % (i, j, topk))
                    q = None
                else:
                    q = np.where(keep, q, 0)
                    q = q / q.sum()
                ctx.check(0 <= tok < V and z[tok] >= z[o[topk - 1]] - lim / temp * 2, 'wrong_token', lambda: 'step %d token %d: %r is not among the first %d' % (
                    i, j, tok, topk))
            if few:
                n = topk or V
                ctx.check(p.size == n, 'wrong_distribution', lambda: 'step %d token %d: %d candidates instead of %d' % (i, j, p.size, n))
                at = np.sort(p)[::-1]
                ctx.check(abs(p[drawn] - np.exp((y[tok] - y.max()) / temp) * at[0]) <= 2 * lim / temp + 1e-5, 'drawn_token_not_used', lambda: 'step %d token %d: %d' % (
                    i, j, tok))
                p = at
                q = None if q is None else np.sort(q)[::-1][:n]
            if q is not None:
                d = np.abs(p - q).max()
                ctx.check(d <= 2 * lim / temp + 1e-5, 'wrong_distribution', lambda: 'step %d token %d: probabilities off by %.3g' % (i, j, d))
        else:
            ctx.check(0 <= tok < V and y[tok] >= y.max() - lim, 'wrong_token', lambda: 'step %d token %d: %r has logit %.6g, %r has %.6g' % (
                i, j, tok, y[tok], int(np.argmax(y)), y.max()))
        seq.append(tok)
        j += 1
        if tok == eos:
            break
    ctx.check(j >= len(want_more), 'continued_after_the_end', lambda: 'step %d: %r, end token %r' % (i, out, eos))
    if temp > 0:
        ctx.check(len(draws) == j, 'not_sampled', lambda: 'step %d: %d draws for %d tokens' % (i, len(draws), j))
    return seq


def cli(ctx, u, i, op):
    """The command line on a folder with configuration and weights; it exports the model itself."""
    cfg = json.loads(json.dumps(u.cfg))
    d = 'folder%d' % i
    os.mkdir(d)
    with open(os.path.join(d, 'config.json'), 'w') as f:
        json.dump(cfg, f)
    with open(os.path.join(d, 'model.safetensors'), 'wb') as f:
        f.write(llmref.pack(u.w))
    llmref.EOS[d] = None
    v = Unit(ctx, dict(u.m, inside=False, kv=True, dt='float32', ctx=8192, S=128, batch=1), 'cli')
    v.w = u.w
    prompt = v.words(op['t'], op['p'])[:max(1, v.maxpos)]
    fired = []
    for k in range(1 + op['twice']):
        argv = ['llm_infer.py', '--model-dir', d, '--prompt', ' '.join(map(str, prompt)), '--max-len', str(op['max']), '--device', 'cpu'] + op['flags']
        old = sys.argv
        sys.argv = argv
        ctx.sb.take_out()
        try:
            r, fd = guarded(ctx, llm_infer.main, op if not k else {'op': 'cli'}, v)
        finally:
            sys.argv = old
        text = ctx.sb.take_out()
        fired += fd
        ctx.log(i, 'cli', k, hist.exc_name(r), fd)
        ctx.state('cli', r[0], k, (fd or ['plain'])[0])
        if r[0] == 'exc':
            if not fired and not limits(v, len(prompt), op['max']):
                ctx.violate('generation_fails', 'step %d, command line: %s' % (i, short(r[1])), type(r[1]).__name__)
            continue
        res = [x for x in text.split('\n') if x.startswith('Result: ')]
        ctx.check(len(res) == 1, 'no_result', lambda: 'step %d: %r' % (i, text[-300:]))
        out = [int(t) for t in res[0][8:].split()]
        ctx.check(out[:len(prompt)] == prompt, 'prompt_changed', lambda: 'step %d: %r' % (i, out))
        verify(ctx, v, i, prompt, out, op['max'], None, 0.0, 0, [], True)
    return 0, len(fired)
