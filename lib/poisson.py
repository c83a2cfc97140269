"""C18: Poisson probabilities, for every rate and history of requests (spec/Exp, spec/PoissonTrace)."""
import math
import gen, api
from vc import *


def rate(r, kmax):
    k = r.random()
    if k < 0.1:
        return 0.0
    if k < 0.3:
        return r.choice([1.0, 0.5, 2.0, 0.1, 0.25, 3.0, 10.0, 1e-3, 1e-17, 1e-100, 1e-290, 1.5e-5, 0.999])
    if k < 0.33:
        return r.choice([5e4, 1e5, 1e6, 123456789.0, 1e10, 1e100, 1e300, 1.7e308])
    if k < 0.36:
        return r.uniform(700, 760)
    if k < 0.6:
        return kmax * r.uniform(0.2, 1.5)
    if k < 0.8:
        return 10 ** r.uniform(-8, math.log10(max(10, kmax)))
    return float(r.randint(1, max(1, kmax)))


def near(r, lam, kmax, c):
    """Where the weights are large, and everywhere."""
    w = 3 * math.sqrt(lam) + 3
    ks = {0, 1, kmax, kmax - 1, min(kmax, max(0, int(lam)))} | {min(kmax, max(0, round(r.gauss(lam, w)))) for _ in range(c)} \
        | {r.randint(0, kmax) for _ in range(c // 3)}
    return sorted(k for k in ks if 0 <= k <= kmax)


def plan(r, length, top):
    ev, objs, last, nxt = [], {}, {}, 0
    while len(ev) < length:
        if not objs or (len(objs) < 3 and r.random() < 0.08):
            m = r.choice([1, 2, 3, 5, 10, 50, 127, 128, 129, r.randint(1, top), top])
            objs[nxt], last[nxt] = m, None
            ev.append({'t': 'new', 'obj': nxt, 'max': m})
            nxt += 1
            continue
        o = r.choice(list(objs))
        m = objs[o]
        k = r.random()
        if k < 0.03:
            ev.append({'t': 'del', 'obj': o})
            del objs[o], last[o]
        elif k < 0.08:
            ev.append({'t': 'array', 'obj': o, 'n': r.randint(0, m), 'x': -r.choice([1.0, 1e-9, 1e-300, 5e-324, 1000.0, float(m)])})
            last[o] = None
        elif k < 0.45:
            n = r.choice([m, r.randint(0, m), r.randint(0, m), 0, max(0, m - 1)])
            lam = rate(r, m)
            ev.append({'t': 'array', 'obj': o, 'n': n, 'x': lam})
            last[o] = (n, lam)
            if r.random() < 0.6:
                ev.append({'t': 'read', 'obj': o, 'at': near(r, lam, n, 10)})
        elif k < 0.6 and last[o]:
            ev.append({'t': 'read', 'obj': o, 'at': near(r, last[o][1], last[o][0], 10)})
        elif k < 0.85:
            lam = rate(r, m)
            ev.append({'t': 'eval', 'obj': o, 'x': lam, 'at': near(r, lam, m, 6)})
        else:
            lam = rate(r, top)
            ev.append({'t': 'single', 'x': lam, 'at': near(r, lam, top, 6)})
    return ev


def play(exe, env, events):
    d = Driver([exe], env=env)
    out = []
    try:
        for e in events:
            e = dict(e)
            if 'x' in e:
                a, b = abs(e['x']).as_integer_ratio()
                e['lam'] = frac(e['x'] < 0, a, b)
            t = e['t']
            line = {'new': lambda: 'new %d %d' % (e['obj'], e['max']), 'del': lambda: 'del %d' % e['obj'],
                    'array': lambda: 'array %d %d %s' % (e['obj'], e['n'], e['x'].hex()),
                    'read': lambda: 'read %d %s' % (e['obj'], ' '.join(map(str, [len(e['at'])] + e['at']))),
                    'eval': lambda: 'eval %d %d %s %s' % (e['obj'], len(e['at']), e['x'].hex(), ' '.join(map(str, e['at']))),
                    'single': lambda: 'single %d %s %s' % (len(e['at']), e['x'].hex(), ' '.join(map(str, e['at'])))}[t]()
            rep = d.ask(line)
            if isinstance(rep, tuple):
                e['out'] = {'k': rep[0], 'why': rep[1][-300:]}
            elif rep == 'ok':
                e['out'] = {'k': 'ok'}
            elif rep.startswith('V'):
                xs = [float.fromhex(x) if 'x' in x else float(x) for x in rep.split()[1:]]
                e['out'] = {'k': 'values', 'v': [number(x) for x in xs], 'show': xs}
            else:
                e['out'] = {'k': 'error' if rep.startswith('E') else 'exception', 'why': rep[:200]}
            e.pop('x', None) if 'x' not in e else e.update(x=repr(e['x']))
            if 'show' in e['out']:
                e['out']['show'] = ' '.join('%.17g' % v for v in e['out']['show'])
            out.append(e)
            if e['out']['k'] in ('crash', 'hang'):
                break
    finally:
        d.close()
    return out


def describe(e):
    return '%s n=%s rate=%s at %s -> %s %s' % (e['t'], e.get('n', e.get('max')), e.get('x'), str(e.get('at'))[:80],
                                              e['out']['k'], e['out'].get('show', e['out'].get('why', ''))[:200])


def histories(r, T):
    hs = []
    for k in range(120 if T else 40):
        hs.append(('std', plan(r, 40, r.choice([10, 100, 300, 1000]))))
    for k in range(16 if T else 4):
        hs.append(('std', plan(r, 12, 10000)))
    for k in range(24 if T else 8):
        hs.append(('asan', plan(r, 60, r.choice([5, 130, 500]))))
    # large generators: every range of rates, forwards and backwards
    for m in [300, 700, 800, 1000, 2000, 5000, 10000] * (4 if T else 1):
        rates = [1e-3, 1.0, 30.0, 300.0, 690.0, 720.0, 745.0, 746.0, 800.0, m / 4, m / 2, 0.9 * m, float(m), 1.1 * m, 2.0 * m, 49999.0, 1e5,
                 r.uniform(0, m), r.uniform(700, 750), r.uniform(0, 2 * m)]
        for order in range(2):
            r.shuffle(rates)
            ev = [{'t': 'new', 'obj': 0, 'max': m}]
            for lam in rates:
                n = r.choice([m, m, m - 1, r.randint(m // 2, m)])
                ev += [{'t': 'array', 'obj': 0, 'n': n, 'x': lam}, {'t': 'read', 'obj': 0, 'at': near(r, lam, n, 8)}]
                if r.random() < 0.5:
                    ev += [{'t': 'eval', 'obj': 0, 'x': lam, 'at': near(r, lam, m, 4)}, {'t': 'single', 'x': lam, 'at': near(r, lam, m, 4)}]
            hs.append(('std', ev))
    # the same rate for requests of different lengths, on several generators
    for k in range(60 if T else 20):
        m = r.choice([5, 20, 130, 400])
        ev = [{'t': 'new', 'obj': 0, 'max': m}, {'t': 'new', 'obj': 1, 'max': max(1, m // 2)}]
        pool = [rate(r, m) for _ in range(2)]
        for _ in range(20):
            o, lam = r.randint(0, 1), r.choice(pool)
            n = r.randint(0, m if o == 0 else max(1, m // 2))
            ev += [{'t': 'array', 'obj': o, 'n': n, 'x': lam}, {'t': 'read', 'obj': o, 'at': near(r, lam, n, 8)}]
        hs.append((r.choice(['std', 'asan']), ev))
    # every element of small arrays, in arrays of all sizes
    for m in range(1, 41):
        ev = [{'t': 'new', 'obj': 0, 'max': m}]
        for lam in (0.0, 1.0, m / 2, m * r.random() * 2, 1e-5):
            ev += [{'t': 'array', 'obj': 0, 'n': m, 'x': lam}, {'t': 'read', 'obj': 0, 'at': list(range(m + 1))},
                   {'t': 'eval', 'obj': 0, 'x': lam, 'at': list(range(m + 1))}, {'t': 'read', 'obj': 0, 'at': list(range(m + 1))}]
        hs.append(('std', ev))
    return hs


def run_histories(hs):
    exes = {v: harness('poisson_driver', v) for v in sorted({h[0] for h in hs})}
    envs = {'std': {'MALLOC_PERTURB_': '165'}, 'asan': {'ASAN_OPTIONS': 'detect_leaks=0'}}
    return pmap(lambda h: {'ev': play(exes[h[0]], envs[h[0]], h[1])}, hs)


def check(pid, ev):
    model_check('ExpTest', ev=ev)
    if harness('poisson_driver', optional=True) is None:
        log('note: the Poisson functions could not be driven directly; checking them through ecdf2 and ecdf1_new')
        import exact
        return api.single_event_check(pid, exact.two_sided('ks', ev) + exact.one_sided(('new_b', 'new_B'), ev), ev)
    r = gen.rng_for(SEED, pid)
    hs = histories(r, THOROUGH)
    res = run_histories(hs)
    for x in res[::max(1, len(res) // 6)]:
        ev.samples.append(' ; '.join(describe(e)[:100] for e in x['ev'][:3]))
    ev.extra['requests'] = {v: sum(len(h[1]) for h in hs if h[0] == v) for v in ('std', 'asan')}
    ev.extra['values'] = sum(len(e.get('at', ())) for x in res for e in x['ev'])
    bad = check_traces('PoissonTrace', res, ev)
    if not bad:
        return []
    idx = sorted({b[0] - 1 for b in bad})[:10]
    again = run_histories([hs[i] for i in idx])
    def report(xs, rejected, variant):
        return [{'history': [describe(e)[:200] for e in xs[s - 1]['ev'][:l]], 'event': xs[s - 1]['ev'][l - 1],
                 'text': '%s, request %d: %s' % (variant(s - 1), l, describe(xs[s - 1]['ev'][l - 1]))} for s, l in rejected]
    return stands(report(res, bad, lambda i: hs[i][0]), report(again, check_traces('PoissonTrace', again), lambda i: hs[idx[i]][0]))
