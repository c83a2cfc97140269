"""C08: invalid lists are rejected with an error, valid lists never are."""
import gen, api
from vc import *

NAN = 2147483646                  # NotANumber of ApiTrace
BELOW = ['-inf', '-1', '-0.5', '-1e-17', '-5e-324', '-1e308', '-1e-300', '-0x1p-53']
ABOVE = ['inf', '2', '1.0000000000000002', '1e308', '1.5', '1.0000001']
NANS = ['nan', '-nan', 'nan(0x8000000000001)']
ALL = ('ks', 'fft', 'new_b', 'new_B', 'mns_b', 'mns_B')


def valid(runs, m):
    lv = [l for _, l in runs]
    return all(0 <= l <= m for l in lv) and all(x <= y for x, y in zip(lv, lv[1:]))


def dress(r, x):
    """Chooses the numbers that stand for the levels outside of the grid, and how 0 is written."""
    m = x['m']
    vals = {'-1': r.choice(BELOW), str(m + 1): r.choice(ABOVE), str(NAN): r.choice(NANS)}
    if r.random() < 0.3:
        vals['0'] = '-0.0'
    for side in 'bB':
        runs = x[side]
        for run in runs:
            if run[1] in (-1, m + 1) and r.random() < 0.35:
                run[1] = NAN
    return dict(x, vals=vals, grid=1 if valid(x['b'], m) and valid(x['B'], m) else 0)


def ops(x, lists):
    """The functions that this pair of lists is a question for."""
    out = []
    if 'both' in lists:
        out += ['ks', 'fft']
    if 'b' in lists:
        out += ['new_b', 'mns_b']
    if 'B' in lists:
        out += ['new_B', 'mns_B']
    return tuple(out)


TINY = ['0', '5e-324', '2.2250738585072009e-308', '1e-300', '1e-17', '1e-9', '0.5', '0.99999999999999989', '1']


def extreme(r):
    """Valid and invalid lists of extreme numbers, of which only the order is known to the model."""
    n = r.randint(1, 6)
    m = len(TINY) - 1
    vals = {str(i): t for i, t in enumerate(TINY)}
    def lst():
        v = sorted(r.randint(0, m) for _ in range(n))
        if r.random() < 0.3:
            i, j = r.randrange(n), r.randrange(n)
            v[i], v[j] = v[j], v[i]
        return runs_of(v)
    return dict(gen.q(m, lst(), lst()), vals=vals, grid=0)


def defect(r, n, m, fine):
    """A valid pair of n bounds with one defect, or two, in one of the lists, or none."""
    x = gen.corridor(r, n) if not fine else None
    if fine:
        b = sorted(r.randint(0, m - 1) for _ in range(n))
        x = gen.q(m, runs_of(b), runs_of(sorted(min(m, l + r.randint(1, m)) for l in b)))
    m = x['m']
    lv = {'b': expand(x['b']), 'B': expand(x['B'])}
    side = r.choice('bB')
    v = lv[side]
    i = r.choice([0, 1, 2, n - 1, n - 2, n // 2, r.randrange(n), r.randrange(n)]) % n
    kind = r.choice(['none', 'down', 'down', 'swap', 'below', 'above', 'nan', 'nan', 'longer', 'shorter', 'far'])
    if kind == 'down':                       # one bound less than its predecessor by one step of the grid
        if i == 0:
            i = min(1, n - 1)
        if v[i - 1] == 0:
            v[i - 1] = 1
            for j in range(i, n):
                v[j] = max(v[j], 1)
        if i:
            v[i] = v[i - 1] - 1
    elif kind == 'swap' and n > 1:
        j = r.randrange(n)
        v[i], v[j] = v[j], v[i]
    elif kind == 'below':
        v[i] = -1
    elif kind == 'above':
        v[i] = m + 1
    elif kind == 'nan':
        v[i] = NAN
    elif kind == 'far':                      # both ends wrong, or everything
        if r.random() < 0.5:
            v[0], v[-1] = -1, m + 1
        else:
            v[:] = [r.choice([-1, m + 1, NAN])] * n
    elif kind == 'longer':
        v += [v[-1]] * r.randint(1, 3)
    elif kind == 'shorter':
        del v[len(v) - r.randint(1, min(3, n)):]
    y = dict(x, b=runs_of(lv['b']), B=runs_of(lv['B']))
    y['vals'] = {'-1': r.choice(BELOW), str(m + 1): r.choice(ABOVE), str(NAN): r.choice(NANS)}
    ok = valid(y['b'], m) and valid(y['B'], m)
    # the exact value of valid questions on a fine grid is not needed here
    y['grid'] = 1 if ok and not fine and n <= 60 else 0
    return y


def block_defect(r, n, at=None):
    """Lists of n bounds in a few blocks of equal ones, with a defect somewhere, or of lengths that differ by much."""
    m = 1000
    def blocks(n):
        cuts = sorted({0, n} | {r.randrange(1, n) for _ in range(r.randint(0, 4))} | ({r.choice([x for x in (256, 1024, 4096, 32768, 65536) if x < n])} if n > 256 else set()) | ({at} if at else set()))
        return [[y - x, None] for x, y in zip(cuts, cuts[1:])]
    def single(n):
        out = blocks(n)
        for run, l in zip(out, sorted(r.sample(range(1, m), len(out)))):
            run[1] = l
        return out
    b, B = single(n), single(n)
    v = r.choice([b, B])
    i = r.randrange(len(v))
    kind = r.choice(['none', 'down', 'down', 'down', 'one', 'one', 'below', 'above', 'lengths', 'lengths'])
    if at:
        kind, i = 'down', [sum(c for c, _ in v[:j]) for j in range(len(v))].index(at)
    if kind == 'down' and i:                              # a whole block too low
        v[i][1] = v[i - 1][1] - 1
    elif kind in ('one', 'below', 'above'):               # one number within or at an end of a block
        k = r.choice([0, v[i][0] - 1, r.randrange(v[i][0])])
        l = {'one': r.choice([NAN, v[i][1] - 1 if k or i else NAN]), 'below': -1, 'above': m + 1}[kind]
        v[i:i + 1] = [x for x in ([k, v[i][1]], [1, l], [v[i][0] - k - 1, v[i][1]]) if x[0]]
    elif kind == 'lengths':
        v[i][0] += r.choice([1, 2, 256, 1024, 65536, 65536 - n if n < 65536 else 7])
    y = gen.q(m, b, B)
    y['vals'] = {'-1': r.choice(BELOW), str(m + 1): r.choice(ABOVE), str(NAN): r.choice(NANS)}
    return dict(y, grid=0)


def check(pid, ev):
    r = gen.rng_for(SEED, pid)
    T = THOROUGH
    pairs = []
    qs = enumerate_questions('pairs', 2, 2, valid=False, ev=ev)
    if T:
        qs += [x for x in enumerate_questions('pairs', 3, 1, valid=False, ev=ev)]
    for x in qs:
        pairs.append((dress(r, x), ('ks', 'fft')))
    for x in enumerate_questions('singles', 5 if T else 4, 2, valid=False, ev=ev):
        pairs.append((dress(r, x), ('new_b', 'mns_b')))
        pairs.append((dress(r, dict(x, b=[], B=[list(y) for y in x['b']])), ('new_B', 'mns_B')))
    f = 8 if T else 1
    for _ in range(700 * f):
        pairs.append((defect(r, r.randint(1, 20), 0, False), ALL))
    for _ in range(500 * f):
        pairs.append((defect(r, r.randint(1, 12), r.choice([2 ** 30, 10 ** 9, 2 ** 20, 997]), True), ALL))
    for _ in range(200 * f):
        pairs.append((defect(r, r.choice([64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]), 0, False), ALL))
    for _ in range(24 * f):
        pairs.append((defect(r, r.choice([400, 1000, 1024, 1500]), 0, False), ('fft', 'new_b', 'new_B')))
    for _ in range(300 * f):
        pairs.append((extreme(r), ALL))
    for at in [10, 16, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096, 5000]:
        for n in (at + 1, at + r.randint(2, 900)):
            pairs.append((block_defect(r, n, at), ('fft', 'mns_b', 'mns_B', 'new_b', 'new_B')))
    for k in range(60 * f):
        n = [2, 3, 10, 300, 300, 1025, 2000, 5000, 20000, 70000][k % 10]
        x = block_defect(r, n)
        ok = valid(x['b'], x['m']) and valid(x['B'], x['m'])
        sizes = [sum(c for c, _ in x[s]) for s in 'bB']
        pairs.append((x, ('ks', 'fft') if sizes[0] != sizes[1] else ALL if n < 300 else ('fft', 'mns_b', 'mns_B', 'new_b', 'new_B') if n < 6000 else ('fft', 'new_b', 'new_B') if not ok else ('new_b',)))
    kinds = {}
    for x, ops_ in pairs:
        k = 'valid' if valid(x['b'], x['m']) and valid(x['B'], x['m']) else 'invalid'
        kinds[k] = kinds.get(k, 0) + len(ops_)
    ev.extra['questions'] = kinds
    return api.single_event_check(pid, pairs, ev)
