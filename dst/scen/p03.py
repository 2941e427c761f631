"""P03: a save that fails does no damage and can simply be retried."""
from .. import hist, models, oracle, writers
from ..core import Discard, Violation, isolated, short
from ..simdisk import SimCrash

RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('a seeded random model with a seeded history and one of 17 artefact writers; 1-6 attempts to write that fail: storage '
        'errors (open, read, mkdir, write with partial progress, full disk, close), an exception at any executed line, refused '
        'allocations, a frozen device, or content the format cannot hold; after each attempt memory, the target and all other files are '
        'compared; finally a clean retry; non-trivial: at least one attempt failed')
STATES = '(writer, kind of failure, outcome, earlier content, target opened) tuples'
REAL = 'all artefact writers of onnx_tool, onnx.save_model, numpy.save, io.BufferedWriter and TextIOWrapper'
STUB = 'file device under the io buffers, clock, standard output'
ASSUME = ['failures inside C code of numpy and onnx are represented by their Python-level exceptions']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, need='S', nlayers=(1, 10 if big else 6), fixed=rng.random() < .3)
    w = writers.gen(rng)
    K = len(rec['sizes'])
    att = []
    for _ in range(rng.randint(1, 8 if big else 5)):
        a = {}
        r = rng.random()
        if r < .4:
            op = rng.choice(['open', 'write', 'write', 'close', 'quota', 'openr', 'read', 'mkdir', 'crash'])
            if op == 'quota':
                sp = {'op': 'quota', 'bytes': rng.choice([0, 1, 100, 3000])}
            elif op == 'crash':
                sp = {'op': 'crash', 'nth': rng.choice([0, 0, 1]), 'part': rng.choice([0, 1, 200])}
            else:
                sp = {'op': op, 'nth': rng.choice([0, 0, 0, 1, 2]), 'err': rng.choice(['EIO', 'ENOSPC', 'EACCES'])}
                if op == 'write':
                    sp['part'] = rng.choice([0, 1, 100, 4000])
            a['disk'] = [sp]
        elif r < .7:
            a['at'] = hist.log_at(rng, 4)
            a['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit'])
        elif r < .85:
            a['alloc'] = rng.randrange(25)
        else:
            a['unenc'] = rng.randrange(720)
        a['older'] = rng.choice(['keep', None, 0, 5, 30000])
        att.append(a)
    return {'rec': rec, 'w': w, 'k': rng.randrange(K), 'att': att,
            'ops': hist.gen_history(rng, rng.randint(0, 3), K, {'regress': 0, 'si_bad': 0}, intr=0, allocp=0)}


def clean(wr, sb):
    wr.fn()
    return writers.collect(sb, wr)


def run(plan, ctx):
    sb = ctx.sb
    s = hist.Session(ctx, plan['rec'])
    for op in plan['ops']:
        s.exec(op)
    s.m.graph.shape_infer(s.inputs(plan['k']))
    for f in list(sb.disk.snapshot()):
        sb.disk.remove(f)
    wr = writers.make(ctx, s, plan['w'], plan['k'])
    sb.disk.write_bytes('other/neighbour.onnx', b'neighbour')
    sb.disk.write_bytes('notes.txt', b'notes')
    try:
        want = isolated(clean, wr, sb)
    except Violation as e:
        if 'can not be stored' in str(e) or 'Unsupported d' in str(e):
            raise Discard('content the format does not hold')
        raise
    targets = list(want)
    for f in targets:
        sb.disk.remove(f)
    writers.place(sb, wr, targets, None)
    base = {f: d for f, d in sb.disk.snapshot().items() if f not in want}
    st = wr.state()
    failed = 0
    for i, a in enumerate(plan['att']):
        if a['older'] != 'keep':
            writers.place(sb, wr, targets, None if a['older'] is None else b'\xa5' * a['older'])
        old = {f: sb.disk.read_bytes(f) for f in targets}
        undo = None
        if 'unenc' in a:
            undo = writers.spoil(wr, a['unenc'])
            if undo is None:
                continue
            ctx.fault('content_not_representable')
        sb.disk.arm([])
        st1 = wr.state() if undo else st
        r, fired = hist.call(ctx, wr.fn, a.get('at'), a.get('exc'), a.get('alloc'), a.get('disk'))
        # hist.call disarms, which forgets what was opened: the device keeps it in its event list
        out = hist.exc_name(r)
        opened = {ev[1] for ev in sb.disk.events if ev[0] == 'opened'}
        # a whole new file may take the place of the target instead
        placed = {ev[1] for ev in sb.disk.events if ev[0] == 'replaced'}
        del sb.disk.events[:]
        ctx.log(i, a, out, fired, sorted(opened))
        ctx.state(wr.kind, sorted(k for k in a), out, a['older'], bool(opened & set(targets)))
        what = lambda: '%s attempt %d %r -> %s' % (wr.kind, i, a, short(r[1], 120) if r[0] == 'exc' else 'ok')
        now = wr.state()
        ctx.check(now == st1, 'memory_changed', lambda: '%s: %s' % (what(), oracle.diff(now, st1)), wr.kind)
        if undo:
            undo()
            ctx.check(r[0] == 'exc', 'unrepresentable_content_written', what, wr.kind)
            ctx.check(not opened & set(targets), 'opened_before_encoding', what, wr.kind)
        files = {f: d for f, d in sb.disk.snapshot().items() if f not in want}
        ctx.check(files == base, 'other_file_touched', lambda: '%s: %r' % (what(), [
            f for f in set(files) | set(base) if files.get(f) != base.get(f)]), wr.kind)
        if r[0] == 'exc':
            failed += 1
            if not fired and not undo:
                ctx.violate('writer_fails_without_fault', what(), wr.kind)
            for f in targets:
                d = sb.disk.read_bytes(f)
                if f in placed and f not in opened:
                    ctx.check(d == want[f], 'incomplete_file_put_in_place', lambda: '%s: %s' % (what(), f), wr.kind)
                elif f not in opened:
                    ctx.check(d == old[f], 'earlier_content_lost', lambda: '%s: %s was never opened for writing, yet changed' % (
                        what(), f), wr.kind)
        else:
            got = writers.collect(sb, wr)
            ctx.check(got == want, 'completed_write_differs', lambda: '%s: %r' % (what(), {
                f: (len(got.get(f) or b''), len(want[f] or b'')) for f in want}), wr.kind)
        r = None
    # the fault is gone: the same call must now do the whole work
    r, _ = hist.call(ctx, wr.fn)
    if r[0] == 'exc':
        ctx.violate('retry_fails', '%s: %s' % (wr.kind, short(r[1])), wr.kind)
    got = writers.collect(sb, wr)
    bad = [f for f in set(got) | set(want) if got.get(f) != want.get(f)]
    ctx.check(not bad, 'retry_differs', lambda: '%s: %r' % (wr.kind, {
        f: (got.get(f) and len(got[f]), want.get(f) and len(want[f])) for f in bad}), wr.kind)
    ctx.check(wr.state() == st, 'memory_changed', lambda: 'retry of %s: %s' % (wr.kind, oracle.diff(wr.state(), st)), wr.kind)
    ctx.log('retry', sorted((f, oracle.hashlib.sha256(d).hexdigest()) for f, d in got.items()))
    ctx.nontrivial = failed > 0
