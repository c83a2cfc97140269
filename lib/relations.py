"""C05-C07: answers to related questions fit together, also where nothing can be enumerated (spec/RelTrace)."""
import math, os
import gen, api
from vc import *

MAXMNS = 2000


def merge(runs):
    return gen.merge([list(x) for x in runs])


def cap_first(r, i, t):
    out = []
    for c, l in r:
        k = min(c, max(0, i))
        out.append([k, min(l, t)]); out.append([c - k, l])
        i -= k
    return merge(out)


def raise_from(r, i, t):
    out = []
    i -= 1                                    # so many stay
    for c, l in r:
        k = min(c, max(0, i))
        out.append([k, l]); out.append([c - k, max(l, t)])
        i -= k
    return merge(out)


def at(r, i):
    for c, l in r:
        if i <= c:
            return l
        i -= c


def size(r):
    return sum(c for c, _ in r)


def reflect(q):
    m = q['m']
    return {'m': m, 'b': [[c, m - l] for c, l in reversed(q['B'])], 'B': [[c, m - l] for c, l in reversed(q['b'])]}


class Session:
    def __init__(self, d):
        self.d = d
        self.ev = []

    def ask(self, q, ops):
        out = []
        for op in ops:
            qq = dict(q)
            if op in api.LOWER:
                qq['B'] = []
            if op in api.UPPER:
                qq['b'] = []
            b, B = api.lists(qq)
            out.append({'op': op, 'out': outcome(self.d.ask('q %s %s %s' % (op, hexlist(b), hexlist(B))))})
        return out


def val(a):
    return float(a[0]['out'].get('show', '0'))


def ops_for(q, base, all_ops):
    """Algorithms that can answer q, out of all_ops."""
    n = size(q['b'])
    out = [o for o in base if o in ('ks', 'fft')]
    if all(l == 0 for _, l in q['b']):
        out += [o for o in ('new_B', 'mns_B') if o in all_ops and (o != 'mns_B' or n <= MAXMNS)]
    if all(l == q['m'] for _, l in q['B']):
        out += [o for o in ('new_b', 'mns_b') if o in all_ops and (o != 'mns_b' or n <= MAXMNS)]
    return out


def measure_session(d, r, q, base, steps):
    s = Session(d)
    one = ('new_b', 'new_B', 'mns_b', 'mns_B') if n_ok(q) else ()
    q = {'m': q['m'], 'b': merge(q['b']), 'B': merge(q['B'])}
    a = s.ask(q, ops_for(q, base, one))
    s.ev.append(dict(q, t='ask', a=a))
    m, n = q['m'], size(q['b'])
    for _ in range(steps):
        i = r.randint(1, n)
        lo, hi = at(q['b'], i), at(q['B'], i)
        c = m * i / (n + 1)
        sd = m * math.sqrt(i * (n + 1 - i)) / (n + 1) / math.sqrt(n + 2)
        t = max(0, min(m, round(r.gauss(c, 1.2 * sd))))
        if r.random() < 0.2:
            k = min(m, 300)
            t = r.choice([lo, hi, 0, m, r.randint(0, m), r.randint(0, k), m - r.randint(0, k)])
        k = r.random()
        if k < 0.65:
            low = {'m': m, 'b': q['b'], 'B': cap_first(q['B'], i, t)}
            high = {'m': m, 'b': raise_from(q['b'], i, t), 'B': q['B']}
            low['a'] = s.ask(low, ops_for(low, base, one))
            high['a'] = s.ask(high, ops_for(high, base, one))
            go = 'low' if val(low['a']) > val(high['a']) else 'high'
            s.ev.append({'t': 'cut', 'i': i, 'at': t, 'low': low, 'high': high, 'go': go})
            q = low if go == 'low' else high
        else:
            side = r.choice('bB')
            # tighten gently, so that something is left
            if side == 'B':
                t = max(t, round(c + r.uniform(0, 2) * sd))
                nq = {'m': m, 'b': q['b'], 'B': cap_first(q['B'], i, min(t, m))}
            else:
                t = min(t, round(c - r.uniform(0, 2) * sd))
                nq = {'m': m, 'b': raise_from(q['b'], i, max(t, 0)), 'B': q['B']}
            t = max(0, min(m, t))
            nq['a'] = s.ask(nq, ops_for(nq, base, one))
            s.ev.append(dict(nq, t='tighten', side=side, i=i, at=t))
            q = nq
        q = {'m': m, 'b': merge(q['b']), 'B': merge(q['B'])}
    return s


def n_ok(q):
    return size(q['b']) <= 4000


def agree_session(d, r, q, base, steps):
    """The same question to all algorithms that can answer it, then its reflection likewise."""
    s = Session(d)
    q = {'m': q['m'], 'b': merge(q['b']), 'B': merge(q['B'])}
    ops = ops_for(q, base, ('new_b', 'new_B', 'mns_b', 'mns_B'))
    s.ev.append(dict(q, t='ask', a=s.ask(q, ops[:1])))
    if ops[1:]:
        s.ev.append({'t': 'again', 'a': s.ask(q, ops[1:])})
    return s


def reflect_session(d, r, q, base, steps):
    s = Session(d)
    q = {'m': q['m'], 'b': merge(q['b']), 'B': merge(q['B'])}
    one = ('new_b', 'new_B', 'mns_b', 'mns_B')
    s.ev.append(dict(q, t='ask', a=s.ask(q, ops_for(q, base, one))))
    q = reflect(q)
    s.ev.append(dict(q, t='reflect', a=s.ask(q, ops_for(q, base, one))))
    return s


def big_corridor(r, n, z=3.0, m=None):
    """b_i < i/n < B_i with slack of z standard deviations, every bound at a level of its own."""
    m = m or 2 ** 20
    w = z * 0.5 / math.sqrt(n) * r.uniform(0.5, 1.2)
    w2 = z * 0.5 / math.sqrt(n) * r.uniform(0.5, 1.2)
    b = sorted(max(0, min(m, round(m * (i / n - w)))) for i in range(n))
    B = sorted(max(0, min(m, round(m * ((i + 1) / n + w2)))) for i in range(n))
    return gen.q(m, runs_of(b), runs_of(B))


def free(n, m):
    return gen.q(m, [[n, 0]], [[n, m]])


def lowered(q):
    n = size(q['b'])
    return gen.q(q['m'], q['b'], [[n, q['m']]])


def uppered(q):
    n = size(q['B'])
    return gen.q(q['m'], [[n, 0]], q['B'])


def jobs(pid, r):
    """(kind of session, question, algorithms, steps)"""
    T = THOROUGH
    f = 5 if T else 1
    out = []
    fn = {'C05': measure_session, 'C06': agree_session, 'C07': reflect_session}[pid]
    two = ('ks', 'fft')
    small = [gen.small_pair(r, 20) for _ in range(120 * f)] + [gen.clustered(r) for _ in range(80 * f)] \
        + [gen.corridor(r, n) for n in range(1, 60)]
    small += [x for n in range(1, 40) for x in (lowered(gen.corridor(r, n)), uppered(gen.corridor(r, n)))]
    small += [free(r.randint(1, 30), r.choice([4, 10, 64, 1000])) for _ in range(40 * f)]
    small += [gen.near_edges(r, r.randint(1, 60)) for _ in range(60 * f)]
    mid = []
    for n in [r.randint(60, 500) for _ in range(40 * f)] + [99, 100, 101, 127, 128, 129, 143, 144, 145, 255, 256, 257, 400, 401]:
        x = big_corridor(r, n)
        mid.append(r.choice([lambda: x, lambda: lowered(x), lambda: uppered(x), lambda: free(n, 2 ** 20)])())
    mid += [gen.levels_question(r, r.randint(200, 900), 1000, r.randint(2, 8), sizes=[120, 127, 128, 129, 150]) for _ in range(10 * f)]
    mid += [gen.near_edges(r, r.randint(100, 900)) for _ in range(20 * f)]
    for x in small:
        out.append((fn, x, two, 8))
    for x in mid:
        out.append((fn, x, two, 5))
    big = [1000, 1023, 1024, 1025, 1500, 2000] + ([2047, 2048, 2049, 3000, 4000, 5000] if T else [2048, 3000])
    for n in big * (2 if T else 1):
        x = big_corridor(r, n)
        out.append((fn, x, two, 2))
        # one-sided questions have windows of n counts: O(n^2) per bound and no limit for the direct algorithm
        x = big_corridor(r, n, m=64 if n <= 2100 else 16)
        out.append((fn, lowered(x), two, 1))
        out.append((fn, uppered(x), two, 1))
        out += [(fn, gen.near_edges(r, n, True), two, 2) for _ in range(3)]
        out.append((fn, gen.levels_question(r, n, 64, r.randint(2, 4), sizes=[min(n, 1024), min(n, 1025), min(n, 700)]), two, 2))
    # the one-sided algorithms at their own sizes, all bounds distinct
    for n in [1100, 1700, 2000] + ([2500, 4000] if T else [2500]):
        x = big_corridor(r, n)
        out.append((fn, lowered(x), ('fft',), 1))
        out.append((fn, uppered(x), ('fft',), 1))
    for n in [300, 1000, 2000, 2000, 3500] * f:
        x = gen.rare_exits(r, n, 10 ** r.uniform(-10, -8.5), '2', m=2 ** 30)
        out.append((fn, lowered(x), ('fft',), 1))
        out.append((fn, uppered(x), ('fft',), 1))
        out.append((fn, x, two, 1) if n < 1500 else (fn, x, ('fft',), 1))
    return out


def run_jobs(js):
    exe = harness('api_driver')

    def one(ij):
        i, (fn, q, base, steps) = ij
        d = Driver([exe], timeout=300)
        try:
            return fn(d, gen.rng_for(SEED, 'session', i), q, base, steps).ev
        finally:
            d.close()
    order = sorted(enumerate(js), key=lambda x: -size(x[1][1]['b']))
    res = dict(zip([i for i, _ in order], pmap(one, order)))
    return [res[i] for i in range(len(js))]


def describe(ev, bad):
    e = ev[bad - 1]
    v = [(k, [(a['op'], a['out'].get('show', a['out']['k'])) for a in x['a']])
         for k, x in (('', e), ('low', e.get('low', {})), ('high', e.get('high', {}))) if 'a' in x]
    prev = ev[bad - 2] if bad > 1 else None
    w = [(a['op'], a['out'].get('show', a['out']['k'])) for x in ([prev] if prev else []) for y in (x, x.get(x.get('go'), {})) for a in y.get('a', [])]
    q = e if 'm' in e else e.get('low') or prev
    return '%s n=%d m=%d b=%s B=%s answers %s after %s' % (e['t'], size(q['b']) if q else -1, q['m'] if q else -1,
                                                          json.dumps(q['b'])[:150], json.dumps(q['B'])[:150], v, w)


def check(pid, ev):
    if pid == 'C05':
        model_check('CrossingMC', ev=ev)
    r = gen.rng_for(SEED, pid)
    js = jobs(pid, r)
    sessions = run_jobs(js)
    for s in sessions[:: max(1, len(sessions) // 6)]:
        ev.samples.append(describe(s, len(s))[:500])
    ev.extra['events'] = sum(len(s) for s in sessions)
    ev.extra['n_max'] = max(size(j[1]['b']) for j in js)
    bad = check_traces('RelTrace', [{'ev': s} for s in sessions], ev)
    if not bad:
        return []
    idx = sorted({s - 1 for s, *_ in bad}, key=lambda i: size(js[i][1]['b']))[:12]
    res = run_some(js, idx)
    bad2 = check_traces('RelTrace', [{'ev': s} for s in res])
    def report(xs, rejected):
        return [{'text': describe(xs[s - 1], e), 'session': xs[s - 1][:e]} for s, e in rejected]
    return stands(report(sessions, bad), report(res, bad2))


def run_some(js, idx):
    exe = harness('api_driver')

    def one(i):
        fn, q, base, steps = js[i]
        d = Driver([exe], timeout=300)
        try:
            return fn(d, gen.rng_for(SEED, 'session', i), q, base, steps).ev
        finally:
            d.close()
    return pmap(one, idx)
