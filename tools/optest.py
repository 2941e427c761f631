"""Vocabulary audit (not a check): every layer of dst.models on its own, tracked shapes / tool shapes / tool values
against the reference evaluator.   optest.py [layer ...]"""
import contextlib, io, os, sys, traceback, warnings
warnings.simplefilter('ignore')
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get('VERIF_REPO', '/repo')]
import numpy as np
from concurrent.futures import ProcessPoolExecutor


def one(name):
    import onnx_tool
    from dst import models, oracle, models2
    res, ok, built = {}, 0, 0
    d = models.OPS[name]
    NEWV = [13, 17, 18, 20]
    for opset in NEWV:
        if d['minopset'] > opset:
            continue
        for fam in ['img', 'seq', 'mat', 'img2', 'ids']:
            for p in range(0, 720, 7):
                pre = [[], [{'op': 'conv', 'in': [0], 'p': 0}], [{'op': 'reshapeconst', 'in': [0], 'p': p}], [{'op': 'unsqueeze', 'in': [0], 'p': p}]][p % 4]
                rec = dict(family=fam, opset=opset, layers=pre + [{'op': name, 'in': [p % 3, p % 2, 0], 'p': p}], sizes=[list(s) for s in models.FAMILIES[fam]['sizes'][:2]],
                           wseed=1, dyn=True, raw=1)
                try:
                    b = models.build(rec)
                except Exception as e:
                    res.setdefault('BUILD %r' % e, []).append((fam, p, opset)); continue
                if name not in b.layers:
                    continue
                built += 1
                for k in (0, 1):
                    x = models.data(b, k)
                    try:
                        ref = oracle.ref_all(b.proto, x)
                    except Exception as e:
                        res.setdefault('REF %s' % str(e)[:150], []).append((fam, p, opset)); break
                    sh = {v.name: v.shapes[k] for v in b.vals}
                    bad = [(n, sh[n], ref[n].shape) for n in ref if n in sh and tuple(sh[n]) != ref[n].shape]
                    bad += [(v.name, v.dt, ref[v.name].dtype) for v in b.vals if v.name in ref and ref[v.name].dtype != models.DT[v.dt]]
                    if bad:
                        res.setdefault('TRACK', []).append((fam, p, opset, bad[:2])); continue
                    with contextlib.redirect_stdout(io.StringIO()):
                        try:
                            m = onnx_tool.Model(b.proto.__class__.FromString(b.proto.SerializeToString()))
                            m.graph.shape_infer({n: a.copy() for n, a in x.items()})
                            bad = [(n, m.graph.tensormap[n].get_shape(), m.graph.tensormap[n].dtype, ref[n].shape, ref[n].dtype) for n in ref if n in m.graph.tensormap and (tuple(m.graph.tensormap[n].get_shape()) != ref[n].shape or np.dtype(m.graph.tensormap[n].dtype) != ref[n].dtype)]
                            if bad: res.setdefault('SHAPE', []).append((fam, p, opset, bad[:2]))
                            m.graph.profile()
                        except Exception as e:
                            res.setdefault('SEXC %r' % e, []).append((fam, p, opset))
                        if 'V' in d['tags']:
                            try:
                                m = onnx_tool.Model(b.proto.__class__.FromString(b.proto.SerializeToString()))
                                m.graph.value_infer(x)
                                w = oracle.stepwise(b.proto, x, lambda n: m.graph.tensormap[n].numpy if n in m.graph.tensormap else None)
                                if w: res.setdefault('VALUE ' + w.split(':', 1)[0].split(' (')[-1], []).append((fam, p, opset, w))
                            except Exception as e:
                                res.setdefault('VEXC %r' % e, []).append((fam, p, opset))
    return name, built, {k: (len(v), v[:3]) for k, v in res.items()}


if __name__ == '__main__':
    from dst import models, models2
    names = [n for n in (sys.argv[1:] or models2.NEW) if n != '--all'] or list(models.OPS)
    with ProcessPoolExecutor(8) as ex:
        for name, built, res in ex.map(one, names):
            if res or not built:
                print('##', name, built)
                for k, v in sorted(res.items()):
                    print('    ', k[:200], v[0], str(v[1])[:420])
