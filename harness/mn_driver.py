"""Calls functions of benchmarks/exactbj.py (the repository's benchmarks directory and the directory of the module are given).
One JSON request per line of stdin, one JSON answer per line of stdout. Plots are not made: matplotlib is replaced.
So is what the module needs of old environments (a module utils, time.clock), unless a third argument is given: then
it is only imported and its Timer is used, and what happens to both is the answer."""
import contextlib, io, json, sys, warnings
from unittest.mock import MagicMock
sys.path[:0] = sys.argv[1:3]
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
for m in ('matplotlib', 'matplotlib.pyplot', 'cpuinfo'):
    sys.modules[m] = MagicMock()
sys.modules['cpuinfo'].get_cpu_info = lambda: {'brand_raw': 'some processor'}
import time, types


def happens(f):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            f()
        return ''
    except Exception as e:
        return repr(e)


def load():
    import exactbj


def use_timer():
    import exactbj
    with exactbj.Timer('x'):
        pass


if sys.argv[3:]:
    print(json.dumps({'import': happens(load)}))
    sys.modules['utils'] = types.SimpleNamespace(Timer=None)
    print(json.dumps({'timer': happens(use_timer)}))
    sys.exit()
sys.modules['utils'] = types.SimpleNamespace(Timer=None)
if not hasattr(time, 'clock'):
    time.clock = time.process_time
import numpy
import exactbj, pickler

KINDS = {'list': list, 'tuple': tuple, 'array': lambda v: numpy.array(v), 'strided': lambda v: numpy.repeat(numpy.array(v), 2)[::2]}
unhex = lambda v: [float.fromhex(x) for x in v]
tohex = lambda v: [float(x).hex() for x in v]


def answer(q):
    f = q['f']
    if f == 'stat':
        x = KINDS[q['kind']](unhex(q['x']))
        return {'out': float(exactbj.Mn_plus_statistic(x)).hex(), 'after': tohex(x)}
    if f in ('bounds', 'dist'):
        v = float.fromhex(q['v'])
        a = {'b': tohex(exactbj.Mn_plus_bounds(q['n'], v))}
        if f == 'dist':
            a['out'] = float(exactbj.Mn_plus_distribution(q['n'], v)).hex()
        return a
    if f in ('picks', 'same'):
        n, v = q['n'], float.fromhex(q['v']) if 'v' in q else float(exactbj.inverse_Mn_plus(q['n'], float.fromhex(q['alpha']), False))
        b = exactbj.Mn_plus_bounds(n, v)
        if f == 'picks':
            return {'len': len(b), 'b': tohex(b[i - 1] for i in q['at'])}
        out = float.fromhex(q['alpha']) if 'alpha' in q else float(exactbj.Mn_plus_distribution(n, v))
        return {'out': out.hex(), 'ref': float(1 - exactbj.crossprob.ecdf2(list(b), [1] * len(b), True)).hex()}
    if f == 'inv':
        v = float(exactbj.inverse_Mn_plus(q['n'], float.fromhex(q['alpha']), q.get('debug', False)))
        return {'out': v.hex(), 'b': tohex(exactbj.Mn_plus_bounds(q['n'], v))}
    alpha = float.fromhex(q.get('alpha', '0x0p+0'))
    if f == 'precalc':
        exactbj.precalc_Mn_plus_alpha_level_thresholds(alpha, q['ns'])
        return {}
    if f == 'timings':
        exactbj.precalc_timings_Mn_plus(alpha, q['ks'], q['mns'], 2)
        return {}
    if f == 'large':
        v = float.fromhex(q['v'])
        exactbj.precalc_timings_Mn_plus_largescale(v, q['ns'])
        d = pickler.load('Mn_plus_timings_largescale')
        return {'ns': list(d.n_range), 'v': float(d.threshold).hex(), 'b': [tohex(exactbj.Mn_plus_bounds(n, v)) for n in q['ns']],
                'new': tohex(d.new[1]), 'fft': tohex(d.mn2017[1])}
    if f == 'stored':
        d = pickler.load('Mn_plus_thresholds_%s' % alpha)
        return {'ns': list(d.n_range), 'pairs': [[n, float(t).hex()] for n, t in d.thresholds]}
    d = pickler.load('Mn_plus_timings_%s' % alpha)
    some = lambda v: [None if x is None else float(x).hex() for x in v[1]]
    return {'ns': list(d.n_range), 'ks': some(d.ks2001), 'mns': some(d.mns2016), 'fft': some(d.mn2017), 'new': some(d.new)}


for line in sys.stdin:
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            a = answer(json.loads(line))
        except Exception as e:
            a = {'error': repr(e)[:200]}
    print(json.dumps(a), flush=True)
