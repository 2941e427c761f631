"""Zygote: imports everything once, then forks one pristine child per run.

stdin:  one JSON request per line   {"id":..,"prop":..,"seed":..,"idx":..,"tier":..} or {"id":..,"prop":..,"plan":..}
stdout: one JSON result per line
"""
import json
import os
import sys
import warnings


def main():
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    from . import core, env
    warnings.simplefilter('ignore')
    try:
        if 'simthreads.install()' in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'scen', sys.argv[1].lower() + '.py')).read():
            from . import simthreads
            simthreads.install()  # before the package is imported: its locks take part in the simulation
        env.preload()
    except BaseException as e:  # noqa
        import traceback
        out.write(json.dumps({'ready': False, 'error': traceback.format_exc()[-3000:]}) + '\n')
        out.flush()
        return 3
    if os.environ.get('VERIF_COV'):
        core.cov_start()
    scens = {}
    prop0 = sys.argv[1]
    try:
        scens[prop0] = core.load_scen(prop0)
    except BaseException:  # noqa
        import traceback
        out.write(json.dumps({'ready': False, 'error': traceback.format_exc()[-3000:]}) + '\n')
        out.flush()
        return 3
    out.write(json.dumps({'ready': True}) + '\n')
    out.flush()
    hs = os.environ.get('PYTHONHASHSEED', '0')

    def job(req):
        scen = scens[req['prop']]
        if 'plan' in req:
            plan = req['plan']
        else:
            try:
                plan = core.plan_for(scen, req['prop'], req['seed'], req['idx'], req['tier'])
            except BaseException:  # noqa
                import traceback
                return {'error': 'gen: ' + traceback.format_exc()[-3000:], 'violation': None}
        res = core.run_plan_here(scen, plan, keep_trace=req.get('trace', False), hashseed=hs)
        if res['violation'] or res['error'] or req.get('want_plan'):
            res['plan'] = plan
        return res

    for line in sys.stdin:
        req = json.loads(line)
        r = core.forked(job, req, timeout=req.get('timeout', 600))
        if r[0] == 'ok':
            res = r[1]
        else:
            res = {'error': 'run process: %r' % (r,), 'violation': None, 'died': r[0]}
        res['id'] = req['id']
        try:
            out.write(json.dumps(res) + '\n')
            out.flush()
        except BrokenPipeError:
            return 0
    return 0


if __name__ == '__main__':
    sys.exit(main())
