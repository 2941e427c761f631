#!/opt/venv/bin/python
"""Lines of /repo that no scenario reaches.  cov.py FOLDER FILE...   (after VERIF_COV=FOLDER ./check.sh ...)"""
import ast
import os
import sys

hit = set()
for f in os.listdir(sys.argv[1]):
    hit.update(open(os.path.join(sys.argv[1], f)).read().split())
for fn in sys.argv[2:]:
    src = open('/repo/' + fn).read().splitlines()
    code = compile('\n'.join(src), fn, 'exec')
    lines, owner = set(), {}

    def walk(c, path):
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                walk(k, path + [k.co_name])
        if 'func' or path:
            if c.co_flags & 2:
                for _, _, l in c.co_lines():
                    if l and l != c.co_firstlineno:
                        lines.add(l)
                        owner[l] = '.'.join(path)
    walk(code, [])
    miss = sorted(l for l in lines if '%s:%d' % (fn, l) not in hit)
    print('== %s: %d of %d lines not reached' % (fn, len(miss), len(lines)))
    last = None
    for l in miss:
        if owner[l] != last:
            last = owner[l]
            print('  --', last)
        print('%5d %s' % (l, src[l - 1]))
