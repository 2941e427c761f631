"""Make planted-bug folders from a spec file:  plant.py SPEC.py [id ...]

SPEC.py defines BUGS = {id: dict(property=, edits=[(file, old, new)], demo='python source', needs=, breaks=)}.
Each bug is kept only if it builds, passes the stable tests and its demonstration passes on the unchanged tree
and fails with the patch.  Not used by any check.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PY = '/opt/venv/bin/python'
BASE = '89df6a5'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO_SH = '''#!/bin/bash
# cwd is the repository; exit 0: the property holds, nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def demo(folder, tree):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    return sh(['bash', os.path.join(folder, 'demo.sh')], tree, env=e, timeout=280)


def original_lines(tree, files):
    """number of removed lines that stem from the original repository"""
    n = 0
    d = sh(['git', 'diff', '-U0'], tree).stdout
    fn = None
    for line in d.splitlines():
        if line.startswith('--- a/'):
            fn = line[6:]
        if line.startswith('@@'):
            a = line.split()[1][1:].split(',')
            start, cnt = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if cnt:
                b = sh(['git', 'blame', '-s', '-L', '%d,+%d' % (start, cnt), 'HEAD', '--', fn], tree).stdout
                n += sum(1 for x in b.splitlines() if x.startswith('^' + BASE[:7]) or x.startswith(BASE))
    return n


def one(bid, b):
    w = tempfile.mkdtemp(prefix='plant_')
    tree = os.path.join(w, 'repo')
    fold = os.path.join(w, 'd')
    os.makedirs(fold)
    try:
        subprocess.run(['cp', '-a', REPO, tree], check=True)
        sh(['git', 'checkout', '-q', '--', '.'], tree)
        open(os.path.join(fold, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(fold, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        for f in b.get('files', []):
            shutil.copy(f, fold)
        r = demo(fold, tree)
        if r.returncode != 0:
            return bid, 'demo fails on clean tree: ' + r.stdout[-500:] + r.stderr[-1500:]
        for fn, old, new in b['edits']:
            p = os.path.join(tree, fn)
            s = open(p, encoding='utf8').read()
            if s.count(old) != 1:
                return bid, 'edit matches %d times: %r' % (s.count(old), old)
            open(p, 'w', encoding='utf8').write(s.replace(old, new))
        n = original_lines(tree, None)
        if n == 0:
            return bid, 'no original line changed'
        diff = sh(['git', 'diff'], tree).stdout
        r = demo(fold, tree)
        if r.returncode == 0:
            return bid, 'demo passes with the patch'
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        files = sorted({s.split('::')[0].replace('.', '/') + '.py' for s in STABLE})
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] + files, tree, env=env)
        if '%d passed' % len(STABLE) not in r.stdout:
            return bid, 'tests: ' + r.stdout[-600:]
        dst = os.path.join(OUT, bid)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        shutil.copy(os.path.join(fold, 'demo.sh'), dst)
        for f in sorted(os.listdir(fold)):
            if f.endswith('.py'):
                shutil.copy(os.path.join(fold, f), dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        return bid, 'ok (%d original lines) %s' % (n, why)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    sel = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(8) as ex:
        for bid, msg in ex.map(lambda k: one(k, bugs[k]), sel):
            print(bid, '->', msg)
