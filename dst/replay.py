"""Reproduce a replay file exactly:  python -B -m dst.replay replays/P02-xxxx.json"""
import json
import os
import shutil
import sys
import tempfile

from . import check, core


def main():
    rp = json.load(open(sys.argv[1]))
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vdst', dir=base)
    try:
        pool = check.Pool(rp['property'], rp['hashseeds'], len(rp['hashseeds']), scratch)
        (v, res), = check.run_units(pool, rp['hashseeds'], [rp['plan']], trace=True)
        pool.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for h, r in res.items():
        if r.get('error'):
            print('harness error:', r['error'])
            return 2
        if '-v' in sys.argv:
            for line in r.get('trace') or []:
                print('  ', line)
    same = {h: r.get('digest') for h, r in res.items()} == rp.get('digest')
    if v:
        print(v['msg'])
        print('VIOLATION property=%s class=%s key=%s same_trace_as_recorded=%s' % (rp['property'], v['cls'], v['key'], same))
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    sys.exit(main())
