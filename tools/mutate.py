#!/opt/venv/bin/python
"""Self-assessment, used by no check: small random changes of /repo's code that its stable tests accept, against the checks that reach the changed line.

mutate.py COVFOLDER OUT.jsonl N SEED JOBS [FILE...]   COVFOLDER/<P..>/ from VERIF_COV=COVFOLDER/P.. ./check.sh P.. quick"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COV, OUT, N, SEED, JOBS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
FILES = sys.argv[6:] or ['onnx_tool/__init__.py', 'onnx_tool/__main__.py', 'onnx_tool/fusion.py', 'onnx_tool/graph.py', 'onnx_tool/llm.py', 'onnx_tool/model.py',
                         'onnx_tool/node.py', 'onnx_tool/quantization.py', 'onnx_tool/serialization.py', 'onnx_tool/tensor.py', 'onnx_tool/utils.py',
                         'inference/infer.py', 'inference/kernels.py', 'inference/llm_infer.py', 'inference/memory_pool.py']
rng = random.Random(SEED)
reach = {}
for p in sorted(os.listdir(COV)):
    for f in os.listdir(os.path.join(COV, p)):
        for l in open(os.path.join(COV, p, f)).read().split():
            reach.setdefault(l, set()).add(p)
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '//'}


def mutants(fn):
    src = open('/repo/' + fn).read()
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind, where):
        if not any('%s:%d' % (fn, l) in reach for l in range(n.lineno, n.end_lineno + 1)):
            return
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append(dict(file=fn, line=n.lineno, end=n.end_lineno, where=where, kind=kind, old=raw[a:b].decode(), new=new, src=(raw, a, b)))

    def walk(n, where, quiet):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            where = where + '.' + n.name
        if isinstance(n, ast.Raise) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('print', 'warn', 'warning', 'log'):
            return
        if where:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = type(n.ops[0])
                if t in SWAP:
                    add(n, '%s %s %s' % (text(n.left), SWAP[t], text(n.comparators[0])), 'compare', where)
            if isinstance(n, ast.BinOp) and type(n.op) in OPS:
                add(n, '(%s %s %s)' % (text(n.left), OPS[type(n.op)], text(n.right)), 'arith', where)
            if isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, str(n.value + 1), 'const', where)
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, str(not n.value), 'const', where)
            if isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + o.join('(%s)' % text(v) for v in n.values) + ')', 'bool', where)
                for i in range(len(n.values)):
                    k = [v for j, v in enumerate(n.values) if j != i]
                    o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                    add(n, '(' + o2.join('(%s)' % text(v) for v in k) + ')', 'dropcond', where)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, text(n.operand), 'not', where)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, (ast.AugAssign, ast.Continue, ast.Break, ast.Delete)) or \
                    isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                if n.lineno == n.end_lineno or True:
                    add(n, 'pass', 'delete', where)
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'clone', 'astype', 'reshape', 'contiguous') and not (n.func.attr != 'copy' and not n.args):
                    add(n, text(n.func.value), 'unwrap', where)
                if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'sorted', 'dict', 'set', 'int', 'max', 'min') and len(n.args) == 1:
                    add(n, text(n.args[0]), 'unwrap', where)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('array', 'deepcopy', 'ceil', 'floor') and len(n.args) >= 1:
                    add(n, text(n.args[0]), 'unwrap', where)
                if isinstance(n.func, ast.Name) and n.func.id in ('max', 'min') and len(n.args) == 2:
                    add(n, text(n.args[0]), 'unwrap', where)
                if n.keywords and n.keywords[-1].arg:
                    k = n.keywords[-1]
                    rest = [text(a) for a in n.args] + ['%s=%s' % (q.arg, text(q.value)) for q in n.keywords[:-1] if q.arg]
                    add(n, '%s(%s)' % (text(n.func), ', '.join(rest)), 'dropkw', where)
                if len(n.args) == 2 and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr == 'get':
                    add(n, '%s(%s)' % (text(n.func), text(n.args[0])), 'dropdefault', where)
            if isinstance(n, ast.If):
                add(n.test, 'True' if rng.random() < .5 else 'False', 'cond', where)
            if isinstance(n, ast.Slice) and n.lower is not None and n.upper is None and n.step is None:
                add(n, ':', 'slice', where)
        for c in ast.iter_child_nodes(n):
            walk(c, where, quiet)
    walk(tree, '', False)
    return out


allm = []
for f in FILES:
    allm += mutants(f)
# one draw per function first, then the next
by = {}
for m in allm:
    by.setdefault((m['file'], m['where']), []).append(m)
for v in by.values():
    rng.shuffle(v)
order = []
keys = sorted(by)
while any(by.values()):
    rng.shuffle(keys)
    order += [by[k].pop() for k in keys if by[k]]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l)
        done.add((d['file'], d['line'], d['old'], d['new']))
order = [m for m in order[:N] if (m['file'], m['line'], m['old'], m['new']) not in done]
print(len(allm), 'mutants in', len(keys), 'functions;', len(order), 'to run', flush=True)
lock = threading.Lock()
import re
runs = {p: int(re.search(r"'quick': (\d+)", open('%s/dst/scen/%s.py' % (V, p.lower())).read()).group(1)) * 35 // 100 for p in os.listdir(COV)}
kills = {}


def one(m):
    w = tempfile.mkdtemp(prefix='mut_')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        with open(w + '/repo/' + m['file'], 'wb') as f:
            raw, a, b = m.pop('src')
            src = raw[:a] + m['new'].encode() + raw[b:]
            f.write(src)
        try:
            compile(src, m['file'], 'exec')
        except SyntaxError:
            m['result'] = 'syntax'
            return m
        e = dict({k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}, PYTHONPATH=w + '/repo')
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests/test_broadcast_shape.py', 'tests/test_wherenode.py', 'tests/test_pownode.py'], cwd=w + '/repo', env=e, capture_output=True, text=True, timeout=200)
        m['result'] = 'tests' if r.returncode else ''
        m['tail'] = r.stdout[-300:] if r.returncode not in (0, 1) else ''
        if r.returncode:
            return m
        ps = set()
        for l in range(m['line'], m['end'] + 1):
            ps |= reach.get('%s:%d' % (m['file'], l), set())
        ps = sorted(ps, key=lambda p: (-kills.get((m['file'], p), 0), -kills.get(p, 0), p))
        m['checks'] = ps
        for p in ps:
            try:
                r = subprocess.run(['bash', V + '/check.sh', p, 'quick', '--nomin', '--workers', '2', '--runs', str(runs[p])], capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, VERIF_REPO=w + '/repo', VERIF_SEED='1'))
                code, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                code, txt = 'timeout', ''
            if code != 0:
                m['result'] = '%s:%s' % (p, code)
                m['tail'] = txt[-400:] if code == 1 else (txt + r.stderr)[-900:]
                if code == 1:
                    with lock:
                        kills[p] = kills.get(p, 0) + 1
                        kills[(m['file'], p)] = kills.get((m['file'], p), 0) + 1
                    return m
        m['result'] = m['result'] or 'survived'
        return m
    except Exception as x:
        m['result'] = 'error %r' % x
        m.pop('src', None)
        return m
    finally:
        shutil.rmtree(w, ignore_errors=True)


def worker():
    while True:
        with lock:
            if not order:
                return
            m = order.pop(0)
        m = one(m)
        with lock:
            with open(OUT, 'a') as f:
                f.write(json.dumps(m) + '\n')


ts = [threading.Thread(target=worker) for _ in range(JOBS)]
[t.start() for t in ts]
[t.join() for t in ts]
