"""C21: the statistic M_n^+ and its thresholds (spec/MnPlus)."""
import math
from fractions import Fraction
import gen
from vc import *

PYTHON = shutil.which('python3-vt') or sys.executable       # has numpy and scipy


def places(xs):
    """The numbers in [0,1] in units of a common fraction."""
    fs = [Fraction(x) for x in xs]
    den = max([f.denominator for f in fs] + [1])
    return [limbs(int(f * den)) for f in fs], limbs(den)


def fits(xs):
    return all(isinstance(x, float) and 0 <= x <= 1 for x in xs)


def event(q, a):
    """What TLC is told about the request q and the answer a."""
    unhex = lambda v: [float.fromhex(x) for x in v]
    if isinstance(a, tuple):
        return {'t': 'failed', 'k': a[0], 'why': a[1][:300]}
    err = 'error' in a
    f = q['f']
    none = {'k': 'error' if err else 'none', 'why': a.get('error', '')}
    if f in ('precalc', 'timings') and not err:
        return {'t': f, 'alpha': number(float.fromhex(q['alpha'])), 'out': none}
    if f == 'stat' and not fits(unhex(q['x'])):
        return {'t': 'outside', 'out': none}
    if err:
        return {'t': 'failed', 'call': f, 'failed': a['error'], 'out': none}
    if f == 'stat':
        x = unhex(q['x'])
        p, T = places(x)
        return {'t': 'stat', 'x': p, 'T': T, 'out': number(float.fromhex(a['out'])), 'show': a['out']}
    if f in ('bounds', 'dist', 'inv'):
        v = float.fromhex(a['out'] if f == 'inv' else q['v'])
        b = unhex(a['b'])
        if not fits(b + [v]):
            return {'t': 'failed', 'call': f, 'failed': 'v %s, bounds %s' % (v, b), 'out': none}
        p, T = places([v] + b)
        e = {'t': f, 'n': q['n'], 'v': p[0], 'b': p[1:], 'T': T}
        if 'out' in a:
            e['out'] = number(float.fromhex(a['out']))
            e['show'] = a['out']
        if f == 'inv':
            e['alpha'] = number(float.fromhex(q['alpha']))
        return e
    if f == 'picks':
        v, b = float.fromhex(q['v']), unhex(a['b'])
        if not fits(b + [v]):
            return {'t': 'failed', 'call': f, 'failed': 'v %s, bounds %s' % (v, b), 'out': none}
        p, T = places([v] + b)
        return {'t': f, 'n': q['n'], 'len': a['len'], 'v': p[0], 'at': list(zip(q['at'], p[1:])), 'T': T, 'show': a['b']}
    if f == 'same':
        return {'t': f, 'out': number(float.fromhex(a['out'])), 'ref': number(float.fromhex(a['ref'])), 'show': [a['out'], a['ref']]}
    if f == 'large':
        v = unhex([q['v']])
        if not all(fits(unhex(b) + v) for b in a['b']):
            return {'t': 'failed', 'call': f, 'failed': 'bounds %s' % a['b'], 'out': none}
        rows = []
        for i, n in enumerate(q['ns']):
            p, T = places(v + unhex(a['b'][i]))
            rows.append({'n': n, 'v': p[0], 'b': p[1:], 'T': T, 'outs': [number(x) for k in ('new', 'fft') for x in unhex(a[k])[i:i + 1]]})
        return {'t': 'large', 'rows': rows if a['v'] == q['v'] and a['ns'] == q['ns'] else []}
    alpha = number(float.fromhex(q['alpha']))
    if f == 'stored':
        return {'t': f, 'alpha': alpha, 'ns': q['ns'] if a['ns'] == q['ns'] else [], 'pairs': [{'n': n, 'out': number(float.fromhex(x))} for n, x in a['pairs']]}
    num = lambda x: {'k': 'none'} if x is None else number(float.fromhex(x))
    big = 10 ** 9
    return {'t': 'results', 'alpha': alpha, 'ns': q['ns'],
            'all': [{'limit': m, 'out': [num(x) for x in a[k]]} for k, m in (('ks', q['ks']), ('mns', q['mns']), ('fft', big), ('new', big))]}


def play(job):
    """The sessions, with the functions of a scratch copy of the benchmarks."""
    sessions, lib = job
    os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)
    d = tempfile.mkdtemp(prefix='mn.', dir=os.path.join(BUILD, 'traces'))
    res = []
    try:
        shutil.copytree(os.path.join(REPO, 'benchmarks'), os.path.join(d, 'b'), ignore=shutil.ignore_patterns('__pycache__', 'pickles'))
        dr = Driver([PYTHON, '-B', os.path.join(VERIF, 'harness', 'mn_driver.py'), os.path.join(d, 'b'), lib], timeout=200)
        for qs in sessions:
            ev = []
            for q in qs:
                a = dr.ask(json.dumps(q))
                a = a if isinstance(a, tuple) else json.loads(a)
                ev.append(event(q, a))
                if 'after' in a:
                    res.append({'ev': [{'t': 'kept', 'x': q['x'], 'after': a['after']}], 'asked': [q]})
            res.append({'ev': ev, 'asked': qs})
        dr.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


# what does not work in today's Python: the findings it stands for (known_findings.txt)
ENVIRONMENT = {"ModuleNotFoundError(\"No module named 'utils'\")": 'import-utils', "AttributeError(\"module 'time' has no attribute 'clock'\")": 'timer-clock'}


def works(lib):
    """Importing the module and using its Timer, without stand-ins for what they need."""
    r = run([PYTHON, '-B', os.path.join(VERIF, 'harness', 'mn_driver.py'), os.path.join(REPO, 'benchmarks'), lib, 'plain'])
    out = [json.loads(l) for l in r.stdout.splitlines()]
    if len(out) != 2:
        raise CheckError('mn_driver.py: ' + r.stdout + r.stderr)
    return [{'t': 'works', 'what': k, 'out': {'k': 'error' if v else 'none', 'why': v}} for d in out for k, v in d.items()]


def hexes(v):
    return [float(x).hex() for x in v]


def level(r):
    k = r.random()
    if k < 0.3:
        return r.choice([0.05, 0.01, 0.1, 0.5, 0.001])
    if k < 0.6:
        return r.random()
    if k < 0.8:
        return 10 ** r.uniform(-9, 0)
    return 1 - 10 ** r.uniform(-6, 0)


def requests(r, n):
    """Requests about samples of size n."""
    out = []
    for kind in ('list', 'array', 'tuple', 'strided'):
        pool = [gen.one_double(r) for _ in range(n)] if r.random() < 0.5 else [r.random() for _ in range(n)]
        if r.random() < 0.3 and n > 1:
            pool = [r.choice(pool[:1 + n // 2]) for _ in range(n)]
        out.append({'f': 'stat', 'kind': kind, 'x': hexes(pool)})
    pool = [r.random() for _ in range(n)]
    pool[r.randrange(n)] = r.choice([-1e-9, 1 + 1e-9, math.nan, math.inf, -math.inf, 2.0])
    out.append({'f': 'stat', 'kind': r.choice(['list', 'array']), 'x': hexes(pool)})
    for _ in range(2):
        out.append({'f': 'bounds', 'n': n, 'v': level(r).hex()})
        out.append({'f': 'dist', 'n': n, 'v': (level(r) ** 2).hex()})
    out.append({'f': 'dist', 'n': n, 'v': r.choice([0.0, 1.0]).hex()})
    a = level(r).hex()
    out.append({'f': 'inv', 'n': n, 'alpha': a})
    r.shuffle(out)
    return out + [{'f': 'inv', 'n': n, 'alpha': a, 'debug': True}]


def many(r, n):
    """Requests about samples of a large size n."""
    xs = [r.randrange(1, 64) / 64 for _ in range(r.randint(1, 6))]
    if r.random() < 0.7:                                  # near the quantiles, so that no p-value is tiny
        x = sorted(max(1, min(63, round(64 * j / n + r.gauss(0, 1)))) / 64 for j in range(n))
    else:
        x = [r.choice(xs) for _ in range(n)]
    r.shuffle(x)
    out = [{'f': 'stat', 'kind': r.choice(['list', 'array', 'tuple', 'strided']), 'x': hexes(x)}]
    at = sorted({1, n, r.randint(1, n)})
    out.append({'f': 'picks', 'n': n, 'v': level(r).hex(), 'at': at})
    out.append({'f': 'same', 'n': n, 'v': (level(r) ** 2).hex()})
    return out + [{'f': 'same', 'n': n, 'alpha': r.choice([0.05, 0.01, 0.2, 0.75]).hex()}]


def stored(r, top):
    """Thresholds and timings for several sizes."""
    a = r.choice([0.05, 0.01, 0.2, 0.75]).hex()
    ns = sorted(r.sample(range(1, top), r.randint(1, 4)))
    out = [{'f': 'inv', 'n': n, 'alpha': a} for n in ns]
    out.append({'f': 'large', 'ns': ns, 'v': level(r).hex()})
    out += [{'f': 'precalc', 'alpha': a, 'ns': ns}, {'f': 'stored', 'alpha': a, 'ns': ns}]
    lim = {'ks': r.choice([0, top // 2, top]), 'mns': r.choice([0, top // 2, top])}
    return out + [dict(lim, f='timings', alpha=a), dict(lim, f='results', alpha=a, ns=ns), {'f': 'stored', 'alpha': a, 'ns': ns}]


def check(pid, ev):
    model_check('MnPlusMC', ev=ev)
    if not os.path.exists(os.path.join(REPO, 'benchmarks', 'exactbj.py')):
        raise CheckError('there is no benchmarks/exactbj.py')
    if run([PYTHON, '-c', 'import numpy, scipy']).returncode:
        raise CheckError('no Python with numpy and scipy')
    lib = python_module()
    r = gen.rng_for(SEED, pid)
    top = 110 if THOROUGH else 60
    plain, found = works(lib), []
    bad = check_traces('MnPlusTrace', [{'ev': [x]} for x in plain], ev)
    for s, l in bad:
        why = plain[s - 1]['out']['why']
        found.append({'text': plain[s - 1]['what'] + ': ' + why, 'key': ENVIRONMENT.get(why)})
    js = [requests(r, n) for n in list(range(1, 13)) * (10 if THOROUGH else 4) + list(range(13, top)) * (3 if THOROUGH else 1)]
    js += [stored(r, top) for _ in range(40 if THOROUGH else 12)]
    js += [many(r, round(10 ** r.uniform(2, 3.3 if THOROUGH else 3))) for _ in range(60 if THOROUGH else 16)]
    r.shuffle(js)
    flat = [x for p in pmap(play, [(js[i::JOBS], lib) for i in range(JOBS)]) for x in p]
    for x in flat[::max(1, len(flat) // 6)]:
        ev.samples.append(' '.join('%s %s;' % (q['f'], q.get('v') or q.get('alpha') or len(q['x'])) for q in x['asked'][:8]))
    ev.extra['calls'] = sum(len(x['ev']) for x in flat)
    kept = [x for x in flat if x['ev'][0]['t'] == 'kept']
    flat = [x for x in flat if x['ev'][0]['t'] != 'kept']
    for s, l in check_traces('MnPlusTrace', [{'ev': x['ev']} for x in kept], ev):
        q, e = kept[s - 1]['asked'][0], kept[s - 1]['ev'][0]
        number = lambda v: [float.fromhex(x) for x in v]
        key = 'statistic-sorts-array' if q['kind'] in ('array', 'strided') and number(e['after']) == sorted(number(q['x'])) else None
        if key is None or key not in [v['key'] for v in found]:
            found.append({'text': 'Mn_plus_statistic(%s %s) leaves %s' % (q['kind'], q['x'][:20], e['after'][:20]), 'key': key})
    bad = check_traces('MnPlusTrace', [{'ev': x['ev']} for x in flat], ev)
    if not bad:
        return found

    def report(xs, rejected):
        return [{'asked': xs[s - 1]['asked'][:l], 'answer': xs[s - 1]['ev'][l - 1],
                 'text': json.dumps(xs[s - 1]['asked'][l - 1])[:300] + ' -> ' +
                 json.dumps({k: v for k, v in xs[s - 1]['ev'][l - 1].items() if k in ('out', 'show', 'failed', 'why')})[:300]} for s, l in rejected]
    again = play(([flat[s - 1]['asked'][:l] for s, l in bad[:10]], lib))
    return found + stands(report(flat, bad), report(again, check_traces('MnPlusTrace', [{'ev': x['ev']} for x in again])))
