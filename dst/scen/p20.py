"""P20: LLM graphs built in one process are independent of each other, of their order and of their history."""
import copy
import os

import onnx

from .. import hist, llmcfg, oracle
from ..core import Discard, isolated, short

RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('2-4 seeded builder programs (13 architectures with seeded options, the shipped configurations, vision encoders; prefill, key/value '
        'cache, growing past lengths, profiles for several devices and precisions, tables, saves), some sharing one configuration object, '
        'interleaved call by call in seeded order; single calls are interrupted at a seeded executed line, hit by refused allocations or '
        'storage faults; every program is compared call by call with the same program alone in a fresh process, every profile with a '
        'newly built graph of the current sizes and with the sums of its rows; non-trivial: two programs were interleaved')
STATES = '(architecture, step kind, outcome, current sizes) tuples'
REAL = 'onnx_tool.llm Builder, Graph, node profiles, serialisation through onnx'
STUB = 'clock, file device, standard output'
ASSUME = ['a program whose call was made to fail half-way is not continued',
          'at a change of sizes every graph input that carries the sequence length and is used is given']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    progs = []
    for i in range(rng.randint(2, 5 if big else 4)):
        p = llmcfg.gen_prog(rng, big=big)
        if progs and rng.random() < .35:
            q = rng.choice(progs)
            if not q.get('vision') and not p.get('vision') or q['cfg'] is p['cfg']:
                p['cfg'] = copy.deepcopy(q['cfg'])
                p['share'] = progs.index(q)
                if 'named' in p['cfg']:
                    p['steps'] = [s for s in p['steps'] if s['op'] != 'save']
        for s in p['steps']:
            r = rng.random()
            if r < .04:
                s['at'] = hist.log_at(rng, 4.2)
                s['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'KeyboardInterrupt'])
            elif r < .06:
                s['alloc'] = rng.randrange(8)
            elif r < .12 and s.get('f'):
                s['disk'] = [rng.choice([{'op': 'open', 'nth': 0, 'err': 'EACCES'}, {'op': 'write', 'nth': 0, 'err': 'ENOSPC', 'part': 10},
                                         {'op': 'close', 'nth': 0, 'err': 'EIO'}])]
            if rng.random() < .05:
                s['clock'] = {'jumps': [[rng.randint(1, 9), rng.choice([-1e6, 1e6])]], 'stall': rng.random() < .3}
        progs.append(p)
    order = [i for i, p in enumerate(progs) for _ in p['steps']]
    if rng.random() < .7:
        rng.shuffle(order)
    return {'progs': progs, 'order': order}


def alone(sb, plan, i):
    """The program by itself, without failures, and the figures of newly built graphs for each of its profiles."""
    pr = llmcfg.Prog(plan, sb, 'p%d_' % i)
    res = []
    for st in plan['steps']:
        if pr.skip(st):
            res.append(None)
            continue
        run, see = pr.fn(st)
        sb.take_out()
        try:
            v = ('ok', run())
        except Exception as e:  # noqa
            v = ('exc', short(e))
        res.append((v[0], v[1] if v[0] == 'exc' else None, see(v[1]) if pr.B is not None else None))
    return res


def fresh(sb, plan, s, n, perf, dev):
    return llmcfg.fresh_figures(plan, s, n, perf, dev)


def sums(ctx, B, key):
    g = B.graph
    tot = [0, 0, 0]
    for n in g.nodemap.values():
        lp = n.llm_profile
        tot[0] += lp['FLOPs']
        tot[1] += lp['Memory']
        if lp['Device'] is not None:
            tot[2] += lp['Device']['latency'][2]
    ctx.check(all(abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) for a, b in zip(tot, B.llm_profile)), 'total_is_not_the_sum',
              lambda: 'totals %r, rows sum to %r' % (B.llm_profile, tot), key)
    m = B.context_mem
    ctx.check(abs(m[3] - m[0] - m[1] - m[2]) <= 1e-6 * max(1, m[3]), 'total_is_not_the_sum', lambda: 'context memory %r' % (m,), key)


def table_rows(ctx, B, text, key):
    """Every operator has its row, in order, and a total row follows."""
    names = [n for n in B.graph.nodemap]
    lines = [ln for ln in text.splitlines() if ln.strip() and not set(ln.strip()) <= set('-= ')]
    got = [ln.split()[0] for ln in lines[1:]]
    ctx.check(got == [n.split()[0] for n in names] + ['Total'], 'table_rows', lambda: '%r\nfor %r' % (got, names), key)


def run(plan, ctx):
    sb = ctx.sb
    P = plan['progs']
    for p in P:
        try:
            if 'named' not in p['cfg']:
                p['cfg']['architectures'][0]
        except Exception:
            raise Discard('cfg')
    want = [isolated(alone, sb, p, i) for i, p in enumerate(P)]
    progs = []
    for i, p in enumerate(P):
        sh = None
        j = p.get('share')
        if j is not None and j < i and llmcfg.resolve(P[j]['cfg']) == llmcfg.resolve(p['cfg']):
            sh = progs[j].cfg
            ctx.probe('configuration_object_shared')
        progs.append(llmcfg.Prog(p, sb, 'p%d_' % i, sh))
    before = [copy.deepcopy(p.owned()) for p in progs]
    at = [0] * len(P)
    dead = [False] * len(P)
    last = None
    switches = 0
    for i in plan['order']:
        if i >= len(P) or at[i] >= len(P[i]['steps']):
            continue
        p = progs[i]
        st = P[i]['steps'][at[i]]
        w = want[i][at[i]]
        at[i] += 1
        if dead[i]:
            continue
        if p.skip(st):
            ctx.check(w is None, 'harness', 'skip differs')
            continue
        arch = p.cfg['architectures'][0]
        switches += last is not None and last != i
        last = i
        fn, see = p.fn(st)
        sb.take_out()
        r, fired = hist.call(ctx, fn, st.get('at'), st.get('exc'), st.get('alloc'), st.get('disk'), st.get('clock'))
        real = [f for f in fired if not f.startswith('clock')]
        ctx.log(i, st['op'], r[0], fired)
        key = '%s %s' % (arch, st['op'])
        for a, b in zip(before, [q.owned() for q in progs]):
            ctx.check(a == b, 'argument_modified', lambda: 'after %s: %s' % (st['op'], oracle.diff(list(a), list(b))), key)
        if real:
            if r[0] == 'exc' or st.get('at') is not None:
                dead[i] = True
                ctx.state(arch, st['op'], tuple(real))
                continue
        got = (r[0], short(r[1]) if r[0] == 'exc' else None, see(r[1]) if p.B is not None else None)
        if r[0] == 'exc' and w[0] == 'ok':
            raise r[1]
        ctx.check(got == tuple(w), 'depends_on_other_builds',
                  lambda: 'program %d (%s), step %d %r: with others vs alone: %s' % (i, arch, at[i] - 1, st, oracle.diff(list(got), list(w))), key)
        ctx.state(arch, st['op'], r[0], p.cur, p.n)
        if r[0] == 'exc':
            ctx.probe('call_failed_on_its_own:' + type(r[1]).__name__)
            continue
        if st['op'] == 'profile':
            sums(ctx, p.B, key)
            exp = isolated(fresh, sb, P[i], p.cur, p.n, st['perf'], st['dev'])
            now = llmcfg.figures(p.B)
            ctx.check(now == exp, 'differs_from_fresh_build',
                      lambda: 'program %d (%s) at sequence %d, past %r: %s' % (i, arch, p.cur, p.n, oracle.diff(now, exp)), key)
            ctx.probe('profile_compared_with_fresh_build')
            if p.n is not None and p.cur != P[i]['s']:
                ctx.probe('decode_after_prefill')
        if st['op'] == 'print' and not st.get('f'):
            table_rows(ctx, p.B, got[2][0], key)
        if st['op'] == 'save':
            reload(ctx, p, sb, st, key)
    if switches >= 2:
        ctx.nontrivial = True


def reload(ctx, p, sb, st, key):
    """The saved file holds the whole graph: loaded again it gives the same figures."""
    import onnx_tool
    data = p.files(p.prefix + st['f'])
    if data is None:
        ctx.violate('file_missing', 'save wrote nothing', key)
    m = onnx.ModelProto()
    m.ParseFromString(data)
    g = p.B.graph
    ctx.check([n.name for n in m.graph.node] == list(g.nodemap), 'saved_nodes', lambda: oracle.diff([n.name for n in m.graph.node], list(g.nodemap)), key)
    ctx.probe('saved_file_read_back')
