"""Run checks against planted bugs in scratch copies:  trybugs.py [--all] [id ...]   (--all: every check, not only the property's)"""
import json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(V + '/seeded'))
allp = [c['property'] if 'property' in c else c['property_id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for bid in ids:
    d = V + '/seeded/' + bid
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='try_')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w + '/repo', check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo', check=True)
        props = allp if '--all' in sys.argv else [meta['property']]
        res = []
        for p in props:
            t = time.time()
            r = subprocess.run(['bash', V + '/check.sh', p, 'quick'] + (['--nomin'] if '--all' in sys.argv else []), capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_SEED='1'))
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            msg = [x for x in r.stdout.splitlines() if not x.startswith('VIOLATION')]
            if r.returncode != 0 or '--all' not in sys.argv:
                res.append('%s:%d%s %.0fs' % (p, r.returncode, '' if r.returncode == 1 else ' ' + ' | '.join(msg[-2:]) + r.stderr[-300:], time.time() - t))
        print(bid, meta['property'], '=>', '; '.join(res), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
