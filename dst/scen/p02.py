"""P02: an artefact writer that returns normally has stored the complete artefact."""
import os

from .. import hist, models, oracle, writers
from ..core import Discard, short
from ..simdisk import SimCrash

LEVEL = 'fault_enumeration'
RUNS = {'quick': 1200, 'thorough': 15000}
RULE = ('a seeded random model with a seeded history, one of 17 artefact writers and an earlier content of its targets; a dry '
        'run counts the device operations, then the writer is run again with a failure at every open, read, mkdir and close, at every '
        'write (refused, or cut after 0, 1 or half of its bytes), with the disk filling up at several sizes, with a frozen '
        'device, and with legal short writes and interrupted system calls; non-trivial: at least one fault fired')
STATES = '(writer, device operation and its index, error, partial progress, earlier content) tuples'
REAL = 'all artefact writers of onnx_tool, onnx.save_model, numpy.save, io.BufferedWriter and TextIOWrapper'
STUB = 'file device under the io buffers, clock, standard output'
ASSUME = ['errors that storage reports after close, or never, are out of reach of any writer']

ERR = {'open': ['EACCES', 'ENOSPC', 'EMFILE'], 'openr': ['EACCES', 'EIO'], 'write': ['EIO', 'ENOSPC'], 'close': ['EIO', 'ENOSPC'],
       'read': ['EIO'], 'mkdir': ['EACCES', 'ENOSPC']}


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, need='S', nlayers=(1, 10 if big else 6), fixed=rng.random() < .3)
    w = writers.gen(rng)
    if w['w'] in ('export', 'model', 'graph') and rng.random() < .5:
        # more than one buffer of data
        rec['layers'].insert(0, {'op': 'bigfc', 'in': [0, 0, 0], 'p': rng.randrange(720), 'share': False})
    K = len(rec['sizes'])
    return {'rec': rec, 'w': w, 'k': rng.randrange(K), 'older': rng.choice([None, 0, 5, 30000, 300000, 'same']),
            'ops': hist.gen_history(rng, rng.randint(0, 3), K, {'regress': 0, 'si_bad': 0}, intr=0, allocp=0),
            'e': rng.randrange(60), 'sel': rng.randrange(1000)}


def specs(counts, total, plan, big):
    """Every device operation the clean run performed, with every way it can fail."""
    e = plan['e']
    out = []
    for op, errs in ERR.items():
        n = counts.get(op, 0)
        idx = list(range(n))
        if len(idx) > 12:
            # many pieces: first, last, and a seeded selection
            idx = sorted({0, 1, n - 1} | {(plan['sel'] * (j + 3)) % n for j in range(8)})
        for i in idx:
            err = errs[(e + i) % len(errs)]
            if op == 'write':
                for part in (0, 1, -2):
                    out.append([{'op': 'write', 'nth': i, 'err': err, 'part': part}])
            else:
                out.append([{'op': op, 'nth': i, 'err': err}])
    for q in sorted({0, 1, total // 3, max(0, total - 1)}):
        if q < total:
            out.append([{'op': 'quota', 'bytes': q}])
    out.append([{'op': 'crash', 'nth': e % max(1, counts.get('write', 1)), 'part': e}])
    out.append([{'op': 'short', 'sizes': [1 + e, 1]}, ] if total < 4000 else [{'op': 'short', 'sizes': [1 + e, 777]}])
    out.append([{'op': 'short', 'sizes': [3000]}, {'op': 'eintr', 'nth': 0}])
    out.append([{'op': 'shortread', 'sizes': [1 + e * 7]}])
    out.append([{'op': 'eintr', 'nth': e % max(1, counts.get('write', 1))}])
    return out


def setup(plan, ctx):
    s = hist.Session(ctx, plan['rec'])
    for op in plan['ops']:
        s.exec(op)
    s.m.graph.shape_infer(s.inputs(plan['k']))
    return s


def run(plan, ctx):
    sb = ctx.sb
    s = setup(plan, ctx)
    for f in list(sb.disk.snapshot()):
        sb.disk.remove(f)
    wr = writers.make(ctx, s, plan['w'], plan['k'])
    # the fault-free run
    sb.disk.arm([])
    try:
        wr.fn()
    except Exception as e:
        if wr.kind == 'cg' and 'can not be stored' in str(e) or 'Unsupported d' in str(e):
            raise Discard('content the format does not hold')
        ctx.violate('writer_fails_without_fault', '%s: %s' % (wr.kind, short(e)), wr.kind)
    counts = dict(sb.disk.counts)
    total = sb.disk.written
    wl = list(sb.disk.wlog)
    sb.disk.disarm()
    want = writers.collect(sb, wr)
    targets = list(want)
    ctx.check(want and all(v is not None for v in want.values()), 'artefact_missing',
              lambda: '%s returned normally, files %r' % (wr.kind, {k: v is not None for k, v in want.items()}), wr.kind)
    ctx.check(not sb.disk.open_handles(), 'file_left_open', lambda: '%s: %r' % (wr.kind, sb.disk.open_handles()), wr.kind)
    others = {f: d for f, d in sb.disk.snapshot().items() if f not in want}
    ctx.log(wr.kind, sorted(counts.items()), total, sorted((f, oracle.hashlib.sha256(d).hexdigest()) for f, d in want.items()))
    older = plan['older']
    if older == 'same':     # as long as what is to be written, and not the same
        older = {f: bytes(d[:-1]) + bytes([d[-1] ^ 1]) if d else b'' for f, d in want.items()}
    elif older is not None:
        older = b'\xa5' * older
    n = 0
    for sp in specs(counts, total, plan, False):
        sp = [dict(x) for x in sp]
        for x in sp:
            if x.get('part') == -2:
                x['part'] = (wl[x['nth']][1] if x['nth'] < len(wl) else 2) // 2
        if sp[0]['op'] == 'mkdir' and older is not None:
            continue   # the folder exists already: nothing to create
        writers.place(sb, wr, targets, older)
        sb.disk.arm(sp)
        ctx.step()
        try:
            wr.fn()
            r = 'ok'
        except SimCrash:
            r = 'crash'
        except Exception as e:
            r = short(e, 160)
        fired = sb.disk.disarm()
        for f in fired:
            ctx.fault(f)
        hard = [f for f in fired if f not in ('short_write', 'short_read', 'eintr')]
        ctx.state(wr.kind, sp[0]['op'], min(sp[0].get('nth', -1), 5), sp[0].get('err'), bool(sp[0].get('part')), plan['older'])
        ctx.log(sp, fired, r)
        if not fired and r == 'ok':
            pass
        n += bool(fired)
        if r == 'ok':
            ctx.check(not hard, 'storage_error_swallowed', lambda: '%s: %r struck, the call returned normally' % (wr.kind, (sp, hard)),
                      '%s %s' % (wr.kind, sp[0]['op']))
            got = writers.collect(sb, wr)
            bad = [f for f in targets if got.get(f) != want[f]]
            ctx.check(not bad and set(got) == set(want), 'artefact_incomplete',
                      lambda: '%s under %r returned normally: %s' % (wr.kind, sp, '; '.join('%s has %r bytes, expected %d' % (
                          f, got.get(f) and len(got[f]), len(want[f])) for f in bad) or sorted(got)), wr.kind)
            ctx.check(not sb.disk.open_handles(), 'file_left_open', lambda: '%s under %r: %r' % (
                wr.kind, sp, sb.disk.open_handles()), wr.kind)
        else:
            ctx.check(fired, 'writer_fails_without_fault', lambda: '%s %r: %s' % (wr.kind, sp, r), wr.kind)
            soft = not hard and not any(f == 'crash' for f in fired)
            ctx.check(not soft, 'legal_device_behaviour_fails', lambda: '%s %r: %s' % (wr.kind, sp, r), wr.kind)
        now = {f: d for f, d in sb.disk.snapshot().items() if f not in want}
        ctx.check(now == others, 'other_file_touched', lambda: '%s under %r: %r' % (
            wr.kind, sp, sorted(set(now) ^ set(others)) or 'content'), wr.kind)
        for f in list(sb.disk.handles):
            # an abandoned file object of a failed call: release it
            sb.disk.frozen = False
    ctx.nontrivial = n > 0
