"""C01-C04: the answers are the exact probabilities."""
import collections, math
import gen, api
from vc import *


def two_sided(op, ev):
    r = gen.rng_for(SEED, op)
    T = THOROUGH
    qs = enumerate_questions('pairs', 3, 5 if T else 4, ev=ev)
    if T:
        qs += enumerate_questions('pairs', 4, 3, ev=ev)
    for x in qs:
        x['grid'] = 1
    f = 6 if T else 1
    qs += [gen.small_pair(r) for _ in range(500 * f)]
    qs += [gen.clustered(r) for _ in range(200 * f)]
    qs += [gen.tiny_pair(r) for _ in range(150 * f)]
    qs += [gen.corridor(r, n) for n in list(range(1, 70)) * f]
    qs += [gen.corridor(r, r.randint(70, 260 if T else 150), m=64) for _ in range(24 * f)]
    if T:
        qs += [gen.corridor(r, r.randint(250, 420), m=100) for _ in range(16)]
    qs += [gen.near_edges(r, r.randint(1, 30)) for _ in range(60 * f)] + [gen.near_edges(r, r.randint(100, 400), True) for _ in range(10 * f)]
    qs += [gen.free_pair(r) for _ in range(400 * f)]
    qs += [gen.free_pair(r, 30) for _ in range(40 * f)]
    qs += [gen.free_corridor(r, r.randint(2, 90)) for _ in range(40 * f)]
    qs += [gen.close_steps(r, r.randint(20, 150)) for _ in range(100 * f)]
    qs += [gen.rare_exits(r, r.randint(20, 60), 10 ** r.uniform(-13, -5)) for _ in range(16 * f)]
    qs += [gen.narrow(r, n, w) for n, w in [(200, 1), (300, 2), (400, 8), (600, 4), (800, 3), (1000, 5)] * (2 if T else 1)]
    if T:
        qs += [gen.narrow(r, n, w) for n, w in [(500, 25), (1000, 20), (1500, 4), (2000, 3), (3000, 2)]]
    for sizes in ([31, 32, 33], [63, 64, 65], [126, 127, 128, 129, 130], [255, 256, 257], [500, 511, 512, 513]):
        top = max(sizes)
        qs += [gen.levels_question(r, r.randint(top + 10, top * 3), r.choice([16, 64, 100]), r.randint(2, 5), sizes=sizes)
               for _ in range(8 * f)]
    if op == 'fft':
        qs += [gen.levels_question(r, r.randint(1100, 1600), 64, r.randint(2, 3), sizes=[1022, 1023, 1024, 1025, 1026])
               for _ in range(10 * f)]
        qs += [gen.levels_question(r, r.randint(2060, 2300), 16, 2, sizes=[2046, 2047, 2048, 2049, 2050])
               for _ in range(4 * f)]
        # everything possible at once: windows of n+1 counts
        qs += [gen.q(8, [[n, 0]], [[n // 2, 5], [n - n // 2, 8]]) for n in (126, 127, 128, 1022, 1023, 1024, 1025, 2047, 2048)]
        qs += [gen.q(8, [[n // 2, 0], [n - n // 2, 3]], [[n, 8]]) for n in (127, 128, 1023, 1024, 1500)]
        if T:
            qs += [gen.levels_question(r, r.randint(3100, 3300), 16, 2, sizes=[3071, 3072, 3073, 3074]) for _ in range(4)]
    else:
        qs += [gen.levels_question(r, r.randint(900, 1300), 16, 2, sizes=[800, 1024]) for _ in range(3 * f)]
    # any size, one level that matters
    sizes = [2047, 2048, 2049, 3071, 3072, 3073, 4000, 4095, 4096, 4097, 5000, 5119, 5120, 6144, 7168, 8191, 8192, 8193, 10000, 16384, 20000]
    sizes += [r.randint(1000, 20000) for _ in range(10)] + ([30000, 32768, 40000, 50000, 65536] if T else [])
    for n in (sizes if op == 'fft' else [n for n in sizes if n <= 10000]) * (3 if T else 1):
        qs.append(gen.one_level(r, n, kind=r.choice(['b', 'B', 'both', 'both'])))
    for n in [32768, 46341, 65537, r.randint(46342, 65536)] + ([92682, 131072, 150000, r.randint(65536, 150000)] if T else []):
        qs.append(gen.one_level(r, n, huge=True))
    # large sizes, windows that are not
    for n in [700, 1000, 1500, 2000, 3000, 4000, 5000] * f:
        qs.append(gen.levels_question(r, n, r.choice([16, 64, 256]), r.randint(2, 5), sizes=[r.randint(20, 300)]))
    # all bounds different, on a straight line
    for n in [1, 2, 3, 10, 100, 300, 600, 1000, 1200] * f + ([2000, 3000, 5000] if op == 'fft' else []):
        x = gen.line(r, n)
        qs.append(dict(x, B=[[n, x['m']]]) if x['b'] else dict(x, b=[[n, 0]]))
    w = collections.Counter()
    for x in qs:
        w.update({size for size in gen.windows(x)})
    ev.extra['window_sizes'] = {str(k): w[k] for k in sorted(w) if k >= 100 or k in (0, 1, 2)}
    ev.extra['n_max'] = max(sum(c for c, _ in x['b']) for x in qs)
    return [(x, (op,)) for x in qs]


def one_sided(ops, ev):
    r = gen.rng_for(SEED, *ops)
    T = THOROUGH
    lower, upper = ops
    singles = enumerate_questions('singles', 6 if T else 5, 5 if T else 4, ev=ev)
    f = 5 if T else 1
    qs = []
    for x in singles:
        x['grid'] = 1
        qs.append((x, (lower,)))
        qs.append((gen.as_lower(x), (upper,)))
    new = []
    new += [gen.random_single(r) for _ in range(300 * f)]
    new += [gen.one_sided(r, n) for n in list(range(1, 130)) * f]                     # every alignment with jumps
    new += [gen.one_sided(r, k * k + d, m=64) for k in range(2, 15) for d in (-1, 0, 1) for _ in range(f)]
    new += [gen.tail_single(r, r.randint(2, 60)) for _ in range(100 * f)]
    new += [dict(gen.near_edges(r, n, True), b=[]) for n in [1, 2, 3, 5, 10, 30, 100, 300, 1000] * f]
    new += [gen.one_sided(r, n, K=20) for n in (126, 127, 128, 129, 130, 143, 144, 145, 160, 200, 255, 256, 257, 288, 289, 300)]
    new += [dict(gen.as_lower(gen.clustered(r)), b=[]) for _ in range(60 * f)]
    free = [gen.free_single(r, r.randint(1, 20)) for _ in range(250 * f)] + [gen.free_single(r, r.randint(20, 70)) for _ in range(30 * f)]
    for k in range(40 * f):
        free.append(dict(gen.rare_exits(r, r.randint(30, 75), 10 ** r.uniform(-13, -7), 'B'), b=[]))
    for n in [r.randint(150, 500) for _ in range(24 * f)] + ([1000] * 4 if T else []):
        new.append(gen.rare_levels(r, n, r.randint(3, 10), 10 ** r.uniform(-9.5, -7)))
    big = [(1023, 4), (1024, 4), (1025, 3), (1040, 3), (1300, 2)]
    if 'new_b' in ops:
        big += [(2048, 2), (2049, 2)]
        if T:
            big += [(3073, 2), (4000, 1)]
    else:
        big += [(1500, 2), (2000, 1)]
    new += [gen.one_sided(r, n, K=k) for n, k in big * (2 if T else 1)]
    # one level that matters, for all sizes
    sizes = [100, 500, 1000, 1024, 1500, 1999, 2000] * 2
    if 'new_b' in ops:
        sizes += [2500, 3000, 3999, 4000, 4096, 5000, 6000, 8000] + ([10000, 16384, 20000] if T else [])
    for n in sizes * f:
        x = gen.one_level(r, n, kind='b')
        qs += [(dict(x, B=[]), (lower,)), (dict(gen.one_level(r, n, kind='B'), b=[]), (upper,))]
    if 'new_b' in ops:
        for n in [32768, 46341, r.randint(46342, 65536)] + ([65537, 80000, 92682] if T else []):
            kind = r.choice('bB')
            x = gen.one_level(r, n, kind=kind, huge=True)
            qs.append((dict(x, B=[]), (lower,)) if kind == 'b' else (dict(x, b=[]), (upper,)))
    # bounds that hardly matter, for all sizes
    for n in [1, 10, 100, 500, 1000, 1500, 1700, 1850, 1990, 2000] * f:
        m = r.choice([16, 256]) if n > 500 else 2 ** 20
        for k in (0, r.randint(1, 3)):
            few = sorted(r.randint(1, m) for _ in range(min(k, n)))
            for x in (gen.q(m, [], gen.merge([[1, l] for l in few] + [[n - len(few), m]])),
                      gen.q(m, [], gen.merge([[n - len(few), m - 1 if k else m]] + [[1, m] for l in few]))):
                qs.append((x, (upper,)))
                qs.append((gen.as_lower(x), (lower,)))
    for n in [100, 150, 200, 250, 300] * f:
        new.append(dict(gen.rare_exits(r, n, 10 ** r.uniform(-9.8, -8.8), 'B', m=2 ** 14), b=[]))
    # all bounds different, on a straight line
    sizes = [1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 200, 500, 1000, 1500, 2000]
    if 'new_b' in ops:
        sizes += [2500, 3000, 3500, 4000, 4500]
    for n in sizes * (4 if T else 1):
        qs += [(gen.line(r, n, 'b'), (lower,)), (gen.line(r, n, 'B'), (upper,))]
    for i, x in enumerate(new):
        if x['B'] == []:
            continue
        if i % 2:
            qs.append((x, (upper,)))
        else:
            qs.append((gen.as_lower(x), (lower,)))
    for x in free:                        # the reflection of a double is not a double: both kinds of bounds as they are
        qs.append((x, (upper,)))
        qs.append((dict(x, b=x['B'], B=[]), (lower,)))
    ev.extra['n_max'] = max(sum(c for c, _ in x['b'] + x['B']) for x, _ in qs)
    return qs


def check(pid, ev):
    if pid == 'C01':
        ev.extra['tolerance'] = 'absolute 1e-9, relative 1e-8 above 1e-250'
        model_check('CrossingMC', ev=ev)
        model_check('SweepAlg', cfg='SweepAlgBig.cfg' if THOROUGH else None, ev=ev)
        pairs = two_sided('ks', ev)
    elif pid == 'C02':
        model_check('SweepAlg', cfg='SweepAlgBig.cfg' if THOROUGH else None, ev=ev)
        pairs = two_sided('fft', ev)
    elif pid == 'C03':
        model_check('JumpAlg', cfg='JumpAlgBig.cfg' if THOROUGH else None, ev=ev)
        pairs = one_sided(('new_b', 'new_B'), ev)
    else:
        model_check('PolyAlg', cfg='PolyAlgBig.cfg' if THOROUGH else None, ev=ev)
        pairs = one_sided(('mns_b', 'mns_B'), ev)
    return api.single_event_check(pid, pairs, ev)
