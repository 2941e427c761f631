"""Coordinator: seeded search over simulated runs for one property.

exit 0  property held on every run          exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer (harness error)
"""
import argparse
import copy
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import core

PY = sys.executable
WALL_CAP = {'quick': 600.0, 'thorough': 840.0}


class Zyg:
    """One zygote process; requests are served in order."""

    def __init__(self, prop, hashseed, scratch):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   VERIF_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=core.VERIF, TMPDIR=scratch,
                   COLUMNS='80')
        self.hashseed = str(hashseed)
        self.args = (prop, hashseed, scratch)
        self.p = subprocess.Popen([PY, '-B', '-m', 'dst.zygote', prop], cwd=core.VERIF, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        line = self.p.stdout.readline()
        try:
            r = json.loads(line)
        except ValueError:
            r = {'ready': False, 'error': 'zygote gave no answer'}
        self.ready = r.get('ready')
        self.error = r.get('error')

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'error': 'zygote died', 'violation': None, 'id': req['id']}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, prop, hashseeds, n, scratch):
        self.zs = []
        out = queue.Queue()

        def mk(h):
            out.put(Zyg(prop, h, scratch))
        ths = []
        for h in hashseeds:
            for _ in range(max(1, n // len(hashseeds))):
                t = threading.Thread(target=mk, args=(h,))
                t.start()
                ths.append(t)
        for t in ths:
            t.join()
        while not out.empty():
            self.zs.append(out.get())
        bad = [z for z in self.zs if not z.ready]
        if bad:
            err = bad[0].error
            self.close()
            raise SystemError(err)

    def close(self):
        for z in self.zs:
            z.close()

    def map(self, reqs, on_result, stop=lambda: False):
        """reqs: iterable of (hashseed, request). Each request is served by a zygote of that hash seed."""
        lock = threading.Lock()
        pending = {}
        it = iter(reqs)
        done = [False]

        def nxt(h):
            with lock:
                q = pending.setdefault(h, [])
                if q:
                    return q.pop(0)
                while not done[0]:
                    try:
                        hh, r = next(it)
                    except StopIteration:
                        done[0] = True
                        break
                    if hh == h:
                        return r
                    pending.setdefault(hh, []).append(r)
                    if len(pending[hh]) > 64:
                        break
                return None if done[0] else 'wait'

        def work(z):
            while not stop():
                r = nxt(z.hashseed)
                if r is None:
                    return
                if r == 'wait':
                    time.sleep(0.005)
                    continue
                res = z.ask(r)
                with lock:
                    on_result(z.hashseed, r, res)
        ths = [threading.Thread(target=work, args=(z,)) for z in self.zs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()


def known_findings(prop):
    out = []
    p = os.path.join(core.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, what = line[len('finding:'):].partition('|')
            d = dict(f.split('=', 1) for f in head.split() if '=' in f)
            if d.get('property') == prop:
                out.append((d.get('class', ''), d.get('key', ''), what.strip()))
    return out


def is_known(v, known):
    return any(v['cls'] == c and v['key'].replace(' ', '_') == k for c, k, _ in known)


# ---- units: one plan under every hash seed ------------------------------------------------------------

def merge(unit):
    """unit: {hashseed: result}.  Violation of the unit, if any."""
    rs = [unit[h] for h in sorted(unit)]
    for r in rs:
        if r.get('violation'):
            return r['violation']
    if len(rs) > 1 and len({r.get('digest') for r in rs}) > 1 and not any(r.get('error') for r in rs):
        return {'cls': 'hash_seed_dependent', 'key': 'digest',
                'msg': 'the same calls give different results under PYTHONHASHSEED %s' % ', '.join(sorted(unit))}
    return None


def run_units(pool, hashseeds, plans, trace=False, timeout=240):
    """Evaluate several plans; returns list of (violation, results)."""
    got = [dict() for _ in plans]
    reqs = [(h, {'id': i, 'prop': pool_prop(pool), 'plan': p, 'trace': trace, 'timeout': timeout})
            for i, p in enumerate(plans) for h in hashseeds]

    def on(h, req, res):
        got[req['id']][h] = res
    pool.map(reqs, on)
    return [(merge(g), g) for g in got]


def pool_prop(pool):
    return pool.zs[0].args[0]


# ---- minimisation ---------------------------------------------------------------------------------

def list_paths(x, skip, path=()):
    """Paths of all shrinkable lists, biggest structure first."""
    out = []
    if isinstance(x, dict):
        for k in x:
            if k in skip:
                continue
            out += list_paths(x[k], skip, path + (k,))
    elif isinstance(x, list):
        if x and path and path[-1] is not None and all(isinstance(e, (dict, list, str)) for e in x):
            out.append(path)
        for i, e in enumerate(x):
            if isinstance(e, (dict, list)):
                out += list_paths(e, skip, path + (i,))
    return out


def get_path(x, path):
    for k in path:
        x = x[k]
    return x


def without(plan, path, lo, hi):
    p = copy.deepcopy(plan)
    l = get_path(p, path)
    del l[lo:hi]
    return p


def minimise(pool, hashseeds, plan, cls, scen, budget):
    t0 = time.monotonic()
    skip = set(getattr(scen, 'SHRINK_SKIP', ())) | {'sizes', 'in', 'args', 'dims'}
    tried = set()
    n_tried = 0
    extra = getattr(scen, 'shrink', None)
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        cands = []
        if extra:
            cands += list(extra(copy.deepcopy(plan)))
        for path in list_paths(plan, skip):
            n = len(get_path(plan, path))
            size = n
            while size >= 1:
                for lo in range(0, n, size):
                    cands.append((path, lo, min(n, lo + size)))
                if size == 1:
                    break
                size //= 2
        def simpl(c):
            return c[2] - c[1] if isinstance(c, tuple) else 10 ** 6
        cands.sort(key=simpl, reverse=True)
        batch = []
        i = 0
        while i < len(cands) and time.monotonic() - t0 < budget:
            batch = []
            while i < len(cands) and len(batch) < len(pool.zs):
                c = cands[i]
                i += 1
                p = without(plan, *c) if isinstance(c, tuple) else c
                h = hashlib.sha256(json.dumps(p, sort_keys=True).encode()).hexdigest()
                if h in tried:
                    continue
                tried.add(h)
                batch.append(p)
            if not batch:
                continue
            n_tried += len(batch)
            res = run_units(pool, hashseeds, batch, timeout=120)
            hit = [p for p, (v, _) in zip(batch, res) if v and v['cls'] == cls]
            if hit:
                plan = min(hit, key=lambda p: len(json.dumps(p)))
                progress = True
                break
    return plan, n_tried


# ---- main -----------------------------------------------------------------------------------------

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation; list classes')
    ap.add_argument('--nomin', action='store_true')
    ap.add_argument('--start', type=int, default=0)
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vdst', dir=base)
    pool = None
    try:
        return check(a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, t0, scratch):
    prop = a.property
    sys.path.insert(0, core.REPO)
    from . import env
    scen = core.load_scen(prop)
    hashseeds = [str(h) for h in getattr(scen, 'HASHSEEDS', ['0'])]
    recheck_hs = str(getattr(scen, 'RECHECK_HASHSEED', '4242'))
    runs = a.runs or scen.RUNS[a.tier]
    known = known_findings(prop)
    try:
        pool = Pool(prop, hashseeds, a.workers, scratch)
    except SystemError as e:
        # the code under test cannot even be imported
        sys.stdout.write('harness: cannot start: %s\n' % e)
        return 2
    units = {}
    agg = dict(faults={}, probes={}, states=set(), steps=0, simtime=0.0, digests=set(), nontrivial=set(), logs=0,
               evals=0, discards=0, gaps={})
    viol = []
    errors = []
    known_hit = {}
    samples = []
    stopped = [False]
    digests = {}

    def reqs():
        for i in range(a.start, a.start + runs):
            if time.monotonic() - t0 > WALL_CAP[a.tier]:
                stopped[0] = True
                return
            for h in hashseeds:
                yield h, {'id': i, 'prop': prop, 'seed': a.seed, 'idx': i, 'tier': a.tier,
                          'want_plan': i - a.start < 3, 'timeout': 300}

    def on(h, req, res):
        if res.get('error') and not res.get('retried'):
            errors.append((req['id'], h, res['error']))
        u = units.setdefault(req['id'], {})
        u[h] = res
        if len(u) == len(hashseeds):
            v = merge(u)
            r0 = u[hashseeds[0]]
            agg['evals'] += len(u)
            for r in u.values():
                if r.get('error'):
                    continue
                for k, n in r.get('faults', {}).items():
                    agg['faults'][k] = agg['faults'].get(k, 0) + n
                for k, n in r.get('probes', {}).items():
                    agg['probes'][k] = agg['probes'].get(k, 0) + n
                agg['states'].update(r.get('states', []))
                agg['steps'] += r.get('steps', 0)
                agg['simtime'] += r.get('simtime', 0.0)
                agg['logs'] += r.get('nlog', 0)
                if r.get('discard'):
                    agg['discards'] += 1
                if r.get('gap'):
                    agg['gaps'][r['gap']] = agg['gaps'].get(r['gap'], 0) + 1
                agg['digests'].add(r.get('digest'))
                if r.get('nontrivial'):
                    agg['nontrivial'].add(r.get('digest'))
            if r0.get('plan') is not None and len(samples) < 3 and not v and not r0.get('error'):
                samples.append(r0['plan'])
            digests[req['id']] = r0.get('digest')
            if v:
                if is_known(v, known):
                    known_hit[(v['cls'], v['key'])] = known_hit.get((v['cls'], v['key']), 0) + 1
                else:
                    plan = next((r['plan'] for r in u.values() if r.get('plan') is not None), None)
                    viol.append((req['id'], v, plan))
            units[req['id']] = None

    pool.map(reqs(), on, stop=lambda: bool(viol) and not a.all)
    search_wall = time.monotonic() - t0
    viol.sort(key=lambda x: x[0])
    rc = 0
    # determinism: repeat a sample in other processes, under another hash seed unless the scenario counts executed lines
    remis = reruns = 0
    remis_at = []
    if not viol and not errors and digests:
        z = None
        ids = sorted(digests)
        step = max(1, len(ids) // (6 if a.tier == 'quick' else 40))
        ids = ids[::step]
        p2 = Pool(prop, [recheck_hs], min(4, a.workers), scratch)

        def on2(h, req, res):
            nonlocal remis, reruns
            reruns += 1
            if res.get('digest') != digests[req['idx']]:
                remis += 1
                remis_at.append(req['idx'])
        p2.map(((recheck_hs, {'id': i, 'prop': prop, 'seed': a.seed, 'idx': i, 'tier': a.tier, 'timeout': 300})
                for i in ids), on2)
        p2.close()
    replay_path = None
    if a.all and viol:
        seen = {}
        for i, v, p in viol:
            seen.setdefault((v['cls'], v['key']), []).append((i, v, p))
        for (c, k), l in sorted(seen.items(), key=lambda x: -len(x[1])):
            sys.stdout.write('-- %s | %s : %d runs, first idx %d\n   %s\n' % (
                c, k, len(l), l[0][0], l[0][1]['msg'][:1500].replace('\n', '\n   ')))
    if viol:
        idx, v, plan = viol[0]
        orig_v = v
        mini = plan
        ntried = 0
        if not a.nomin and plan is not None:
            mini, ntried = minimise(pool, hashseeds, plan, v['cls'], scen, 60.0 if a.tier == 'quick' else 120.0)
        # confirm in a fresh process
        fresh = Pool(prop, hashseeds, len(hashseeds), scratch)
        reproduced = False
        for cand in ([mini, plan] if mini is not plan else [plan]):
            if cand is None:
                continue
            (vv, res), = run_units(fresh, hashseeds, [cand], trace=True)
            if vv and vv['cls'] == v['cls']:
                v, plan, reproduced = vv, cand, True
                trace = res[hashseeds[0]].get('trace')
                digest = {h: r.get('digest') for h, r in res.items()}
                break
        else:
            trace, digest = None, None
        fresh.close()
        d = os.path.join(core.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        rp = {'property': prop, 'seed': a.seed, 'idx': idx, 'tier': a.tier, 'hashseeds': hashseeds, 'plan': plan,
              'violation': v, 'found_as': orig_v, 'digest': digest, 'reproduced_in_fresh_process': reproduced,
              'minimise_candidates': ntried, 'trace': trace}
        tag = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]
        replay_path = os.path.join(d, '%s-%s.json' % (prop, tag))
        with open(replay_path, 'w') as f:
            json.dump(rp, f, indent=1)
        sys.stdout.write('violation class=%s key=%s seed=%d idx=%d reproduced=%s\n%s\n' % (
            v['cls'], v['key'].replace(' ', '_'), a.seed, idx, reproduced, v['msg'][:3000]))
        sys.stdout.write('VIOLATION property=%s replay=%s\n' % (prop, os.path.relpath(replay_path, core.VERIF)))
        rc = 1
    elif errors:
        sys.stdout.write('harness error in %d runs; first: idx %s\n%s\n' % (len(errors), errors[0][0], errors[0][2]))
        rc = 2
    pool.close()
    wall = time.monotonic() - t0
    for c, k, what in known:
        sys.stdout.write('KNOWN-FINDING: property=%s class=%s key=%s %s (seen in %d runs)\n' % (
            prop, c, k, what, known_hit.get((c, k), 0)))
    cov = {
        'evaluations': agg['evals'],
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': scen.RULE,
        'samples': samples or ['no run completed without a violation'],
        'simulated_runs': agg['evals'],
        'seeds_per_hour': int(agg['evals'] / max(search_wall, 1e-9) * 3600),
        'simulated_seconds': round(agg['simtime'], 3),
        'api_calls_simulated': agg['steps'],
        'observations_compared': agg['logs'],
        'faults_fired': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'distinct_states': len(agg['states']),
        'distinct_state_measure': getattr(scen, 'STATES', 'distinct abstract states logged by the scenario'),
        'distinct_histories': len(agg['digests']),
        'discarded': agg['discards'],
        'substitute_lacks': agg['gaps'],
        'hash_seeds': hashseeds,
        'determinism_reruns': reruns,
        'determinism_mismatches': remis,
        'determinism_mismatched_runs': remis_at,
        'real_code': getattr(scen, 'REAL', 'all of onnx_tool'),
        'stubbed': getattr(scen, 'STUB', 'file device, clock, standard output'),
        'harness_errors': len(errors),
        'stopped_by_wall_cap': stopped[0],
        'known_findings_seen': sum(known_hit.values()),
    }
    if replay_path:
        cov['replay'] = os.path.relpath(replay_path, core.VERIF)
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': getattr(scen, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': getattr(scen, 'ASSUME', []), 'wall_s': round(wall, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(core.VERIF, 'evidence', prop + '.json')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0 and stopped[0] and agg['evals'] < scen.RUNS['quick'] * len(hashseeds) // 4:
        sys.stdout.write('only %d runs in the time available: no answer\n' % agg['evals'])
        rc = 2
    if agg['gaps']:
        n = sum(agg['gaps'].values())
        sys.stdout.write('%d runs say nothing, a substitute lacks %s\n' % (n, ', '.join(sorted(agg['gaps'])[:4])))
        if rc == 0 and n > agg['evals'] // 2:
            sys.stdout.write('no answer\n')
            rc = 2
    sys.stdout.write('%s %s seed=%d: %d runs (%d distinct non-trivial), %d faults of %d kinds, %.1fs, exit %d%s\n' % (
        prop, a.tier, a.seed, agg['evals'], len(agg['nontrivial']), sum(agg['faults'].values()), len(agg['faults']),
        wall, rc, ', %d/%d determinism mismatches' % (remis, reruns) + repr(remis_at) if remis else ''))
    return rc


if __name__ == '__main__':
    sys.exit(main())
