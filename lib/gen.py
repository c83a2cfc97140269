"""Questions for the library: lists as runs [count, level] on a grid with m cells (level l stands for l/m)."""
import math, random
from fractions import Fraction
from vc import runs_of, expand, limbs

GRIDS = [2, 3, 4, 5, 7, 8, 10, 16, 20, 32, 50, 64, 100, 128, 256]


def rng_for(*key):
    return random.Random('|'.join(str(k) for k in key))


def q(m, b, B, **kw):
    d = {'m': m, 'b': b, 'B': B, 'grid': 1}
    d.update(kw)
    return d


def small_pair(r, nmax=14):
    """A few points, many ties."""
    n = r.randint(1, nmax)
    m = r.choice(GRIDS[:10])
    style = r.random()
    b = sorted(r.randint(0, m - 1) for _ in range(n))
    B = sorted(r.randint(1, m) for _ in range(n))
    if style < 0.5:                       # feasible
        B = [max(x, y + 1) for x, y in zip(B, b)]
    elif style < 0.8:                     # loose
        k = r.randint(1, m)
        b = [max(0, x - k) for x in b]
        k = r.randint(1, m)
        B = [max(y + 1, min(m, x + k)) for x, y in zip(B, b)]
    elif style < 0.95:                    # b_i = B_i at some positions, or nearly
        i = r.randrange(n)
        B = [max(x, y + 1) for x, y in zip(B, b)]
        B[i] = b[i] if i == 0 or B[i - 1] <= b[i] else B[i]
    else:                                 # anything, mostly infeasible
        b = sorted(r.randint(0, m) for _ in range(n))
        B = sorted(r.randint(0, m) for _ in range(n))
    return q(m, runs_of(b), runs_of(B))


def tiny_pair(r):
    """Small probabilities: narrow corridors."""
    n = r.randint(5, 40)
    m = r.choice([64, 100, 128, 256])
    w = r.randint(1, 3)
    c = sorted(r.randint(0, m - w) for _ in range(n))
    return q(m, runs_of(c), runs_of([x + w for x in c]))


def corridor(r, n, m=None, width=None):
    """b_i < i/n < B_i with a random slack, each list on its own set of levels or on a common one."""
    m = m or r.choice([n, n + 1, 64, 100, 128, 2 * n])
    m = max(2, min(m, 400))
    w = width if width is not None else r.choice([0.4, 0.7, 1, 1.5, 2.5]) * 0.5 / math.sqrt(n)
    j = r.choice([0, 0.3, 1]) / n
    b = sorted(max(0, min(m, math.floor(m * (i / n - w + r.uniform(-j, j))))) for i in range(n))
    B = sorted(max(0, min(m, math.ceil(m * ((i + 1) / n + w + r.uniform(-j, j))))) for i in range(n))
    if r.random() < 0.3:                  # round to a coarse set of levels: ties within and between the lists
        c = r.choice([2, 3, 4, 5])
        b = [x // c * c for x in b]
        B = [min(m, -(-x // c) * c) for x in B]
    return q(m, runs_of(b), runs_of(B))


def levels_question(r, n, m, K, sizes=None, z=3.0):
    """Few levels, wide windows. sizes: wanted window sizes (number of counts that are convolved)."""
    lv = sorted(r.sample(range(1, m), K))
    c, d = [], []                         # number of b (B) up to level l_j
    pc = pd = 0
    nxt = lv + [m]
    for j in range(K + 1):
        # c0 counts b entries at level 0; c[j] bounds N at the next level from above, d[j] bounds N(l_j) from below
        l, lnext = (0 if j == 0 else lv[j - 1]), nxt[j]
        mean, sd = n * lnext / m, math.sqrt(n * lnext / m * (1 - lnext / m) + 1)
        meanl, sdl = n * l / m, math.sqrt(n * l / m * (1 - l / m) + 1)
        hi = min(n, max(pc, round(mean + r.uniform(0.2, z) * sd)))
        lo = 0 if j == 0 else max(pd, min(hi, max(0, round(meanl - r.uniform(0.2, z) * sdl))))
        if sizes:
            s = r.choice(sizes)
            lo2 = hi + 1 - s
            if lo2 < pd or lo2 > meanl:   # cannot: widen or narrow from above
                hi2 = lo + s - 1
                hi = min(n, max(pc, hi2)) if hi2 <= n else n
            else:
                lo = max(pd, lo2)
            lo = min(lo, hi)
        if j == 0:
            lo = 0
        c.append(hi); d.append(lo)
        pc, pd = hi, lo
    b, B = [], []
    prev = 0
    for j in range(K + 1):
        l = 0 if j == 0 else lv[j - 1]
        if c[j] > prev:
            b.append([c[j] - prev, l])
        prev = c[j]
    if prev < n:
        b.append([n - prev, lv[-1]])
        b = merge(b)
    prev = 0
    for j in range(1, K + 1):
        if d[j] > prev:
            B.append([d[j] - prev, lv[j - 1]])
        prev = d[j]
    if prev < n:
        B.append([n - prev, m])
    return q(m, merge(b), merge(B))


def one_level(r, n, m=None, kind=None, huge=False):
    """n points and one level that matters, from one side or from both: cheap to count for any n, if huge also for n in
    the ten thousands (few possible counts)."""
    m = m or r.choice([16, 64, 1000])
    l = r.choice([1, m - 1, r.randint(1, m - 1)])
    if huge:
        kind = kind or r.choice(['b', 'B', 'both'])
        m = 2 if kind == 'both' else r.choice([1000, 3000])
        l = 1 if kind != 'B' else m - 1
    p = l / m
    mean, sd = n * p, math.sqrt(n * p * (1 - p)) + 0.5
    hi = min(n, max(0, round(mean + r.uniform(-1, 3) * sd)))         # N(l) <= hi
    lo = min(hi, max(0, round(mean - r.uniform(-1, 3) * sd)))        # N(l) >= lo
    kind = kind or r.choice(['b', 'B', 'both'])
    b = merge([[hi, 0], [n - hi, l]]) if kind != 'B' else [[n, 0]]
    B = merge([[lo, l], [n - lo, m]]) if kind != 'b' else [[n, m]]
    return q(m, b, B)


def merge(runs):
    out = []
    for c, l in runs:
        if out and out[-1][1] == l:
            out[-1][0] += c
        elif c:
            out.append([c, l])
    return out


def one_sided(r, n, m=None, K=None, tight=None):
    """Upper bounds B for X_(i) that are passed with a moderate probability."""
    m = m or r.choice([n, 64, 100, 128, 256, 2 * n])
    m = max(3, min(m, 300))
    t = tight if tight is not None else r.choice([0.2, 0.5, 1.0, 1.5])
    w = t / math.sqrt(n)
    j = r.choice([0, 0.5, 2]) / n
    B = sorted(max(1, min(m, math.ceil(m * ((i + 1) / n + w + r.uniform(-j, j))))) for i in range(n))
    if r.random() < 0.3:                  # tight in the left tail: exits early
        for i in range(min(n, r.randint(1, 5))):
            B[i] = max(1, min(B[i], round(m * (i + 1.5) / n)))
        B = [max(B[:i + 1]) for i in range(n)] if n <= 3000 else B
    if K:
        lv = sorted(r.sample(range(1, m + 1), min(K, m)))
        B = sorted(next((l for l in lv if l >= x), m) for x in B)
    return q(m, [], runs_of(B))


def random_single(r, nmax=20):
    n = r.randint(1, nmax)
    m = r.choice(GRIDS[:10])
    B = sorted(r.randint(0 if r.random() < 0.2 else 1, m) for _ in range(n))
    if r.random() < 0.5:
        B = [min(m, x + m // 3) for x in B]
    return q(m, [], runs_of(B))


def as_lower(qq):
    """The reflected question: bounds from below."""
    m = qq['m']
    return dict(qq, b=[[c, m - l] for c, l in reversed(qq['B'])], B=[[c, m - l] for c, l in reversed(qq['b'])])


def windows(qq):
    """Sizes of the windows of counts that the two-sided algorithms convolve."""
    m = qq['m']
    ev = sorted([(l, 0, c) for c, l in qq['b']] + [(l, 1, c) for c, l in qq['B']])
    out, pos, hi, lo = [], 0, 0, 0
    for l, kind, c in ev + [(m, 2, 0)]:
        if l > pos:
            out.append(hi - lo + 1)
            pos = l
        if kind == 0:
            hi += c
        elif kind == 1:
            lo += c
    return out


def clustered(r, nmax=20):
    """Boundaries at clearly different and at almost equal locations, on a fine grid."""
    n = r.randint(2, nmax)
    m = r.choice([1000, 10 ** 6, 2 ** 20, 10 ** 9, 2 ** 30])
    centers = [0, m] + [r.randint(0, m) for _ in range(r.randint(1, 4))]

    def pick():
        return max(0, min(m, r.choice(centers) + r.choice([0, 0, 1, -1, 2, r.randint(-50, 50)])))
    b, B = sorted(pick() for _ in range(n)), sorted(pick() for _ in range(n))
    if r.random() < 0.8:
        b, B = sorted(min(x, y) for x, y in zip(b, B)), sorted(max(x, y) for x, y in zip(b, B))
    if r.random() < 0.5:
        b = [x // 3 for x in b]
    return q(m, runs_of(b), runs_of(B))


def tail_single(r, n):
    """Bounds that matter only for the first or last few points: extreme levels on a fine grid."""
    m = r.choice([10 ** 4, 10 ** 6, 2 ** 20])
    k = r.randint(1, min(n, 6))
    B = [max(1, round(m * (i + 1) / n * r.uniform(0.3, 3))) for i in range(k)]
    B = sorted(min(m, x) for x in B)
    rest = max(B[-1], round(m * r.uniform(0.5, 1)))
    return q(m, [], runs_of(B + [rest] * (n - k - 1) + ([m] if n > k else [])))


def near_edges(r, n, few=False):
    """Bounds that hardly matter: next to 0 and next to 1."""
    m = r.choice([2 ** 30, 2 ** 30, 10 ** 9, 2 ** 24])
    k = int(10 ** r.uniform(0, 5)) if r.random() < 0.6 else 1
    lv = lambda: r.choice([0, 1, k, r.randint(0, k)])
    some = [r.choice([1, k])] if r.random() < 0.5 else [lv() for _ in range(3 if few else n)]
    side = r.choice('bB22')
    b = sorted(r.choice(some) for _ in range(n)) if side != 'B' else [0] * n
    B = sorted(m - r.choice(some) for _ in range(n)) if side != 'b' else [m] * n
    if r.random() < 0.1 and side != 'B':
        b[-1] = r.randint(0, m)
    if r.random() < 0.1 and side != 'b':
        B[0] = r.randint(0, m)
    return q(m, runs_of(b), runs_of(B))


# ---------------------------------------------------------------- any numbers, not only those of a grid

def doubles(b, B):
    """The question with exactly these floating point numbers (all in [0,1])."""
    pts = sorted({Fraction(x) for x in list(b) + list(B)} | {Fraction(0), Fraction(1)})
    den = max(p.denominator for p in pts)                   # a power of two
    level = {p: i for i, p in enumerate(pts)}
    m = len(pts) - 1
    return q(m, runs_of([level[Fraction(x)] for x in b]), runs_of([level[Fraction(x)] for x in B]),
             vals={str(level[Fraction(x)]): float(x) for x in list(b) + list(B)},
             at=[limbs(int(p * den)) for p in pts[1:]])


def step(r, x):
    """A double near x, at a distance of some units in the last place, or a small absolute or relative one."""
    k = r.random()
    if k < 0.3:
        for _ in range(r.randint(0, 3)):
            x = math.nextafter(x, r.choice([0.0, 1.0]))
        return x
    if k < 0.7:
        return min(1.0, max(0.0, x + r.choice([-1, 1]) * 10 ** r.uniform(-17, -1)))
    return min(1.0, max(0.0, x * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-16, -1))))


def one_double(r):
    k = r.random()
    if k < 0.35:
        return r.random()
    if k < 0.5:
        return round(r.random(), r.randint(1, 4))
    if k < 0.65:
        return 10 ** r.uniform(-20, 0)
    if k < 0.75:
        return 1 - 10 ** r.uniform(-16, 0)
    if k < 0.8:
        return r.choice([0.0, -0.0, 1.0, 5e-324, 2.0 ** -1022, 1e-300, 1e-100, 1 - 2.0 ** -53, 2.0 ** -53, 0.5])
    return r.randint(0, 64) / 64


def free_pair(r, nmax=14):
    """Any doubles, in clusters."""
    n = r.randint(1, nmax)
    pool = [one_double(r) for _ in range(r.randint(1, 2 * n))]
    pick = lambda: step(r, r.choice(pool)) if r.random() < 0.6 else r.choice(pool)
    b, B = sorted(pick() for _ in range(n)), sorted(pick() for _ in range(n))
    k = r.random()
    if k < 0.6:
        b, B = [min(x, y) for x, y in zip(b, B)], [max(x, y) for x, y in zip(b, B)]
    elif k < 0.75:                        # a corridor of little width around one list
        b = B[:]
        B = [step(r, x) for x in B]
        b, B = sorted(min(x, y) for x, y in zip(b, B)), sorted(max(x, y) for x, y in zip(b, B))
    elif k < 0.85:
        b = [0.0] * n
    elif k < 0.95:
        B = [1.0] * n
    return doubles(b, B)


def free_corridor(r, n, z=None):
    """What users compute: bounds around the expected order statistics i/(n+1), as any doubles."""
    z = z or r.choice([1.0, 1.5, 2, 3])
    kind = r.random()
    b, B = [], []
    for i in range(1, n + 1):
        mean = i / (n + 1)
        sd = 1 / math.sqrt(n) / 2 if kind < 0.5 else math.sqrt(mean * (1 - mean) / (n + 2))
        b.append(max(0.0, mean - z * sd))
        B.append(min(1.0, mean + z * sd))
    return doubles(sorted(b), sorted(B))


def free_single(r, n):
    x = free_corridor(r, n, r.choice([0.3, 0.5, 1, 2])) if r.random() < 0.5 else free_pair(r, n)
    return dict(x, b=[])


def close_steps(r, n):
    """Few places, some of them almost the same, and many possible counts: steps with very different rates."""
    places = set()
    for _ in range(r.randint(1, 3)):
        t = r.choice([r.random(), r.random(), 10 ** r.uniform(-12, 0), 1 - 10 ** r.uniform(-12, 0)])
        places.add(t)
        for _ in range(r.randint(0, 2)):
            places.add(min(1.0, max(0.0, t + r.choice([1, 1, -1]) * 10 ** r.uniform(-16, -1))))
    places = sorted(places)
    z = lambda: r.choice([0.5, 1, 2, 3, 5, 20, 100])
    hi, lo, b, B = 0, 0, [], []
    for t in places:
        sd = math.sqrt(n * t * (1 - t)) + 1
        hi = max(hi, min(n, int(n * t + z() * sd)))
        lo = min(hi, max(lo, int(n * t - z() * sd)))
        b += [t] * (hi - len(b))
        B += [t] * (lo - len(B))
    # what is left: bounds at the last place, or at 1
    b += [r.choice(places[-1:] + [0.0])] * (n - len(b))
    return doubles(sorted(b), B + [1.0] * (n - len(B)))


def rare_exits(r, n, p, sides=None, m=None):
    """Bounds that are crossed for the first time at each place with a probability of about p: any doubles, or on a
    grid."""
    def place(k, low):
        """Where a Poisson process with rate n has k points with probability p, before or after k/n."""
        a, z = (0.0, float(k)) if low else (float(k), k + 60 + 20 * math.sqrt(k))
        for _ in range(60):
            x = (a + z) / 2
            dens = -math.inf if x <= 0 else -x + k * math.log(x) - math.lgamma(k + 1)
            if k == 0:
                dens = -x
            if (dens > math.log(p)) != low:
                a = x
            else:
                z = x
        return min(1.0, max(0.0, a / n))
    sides = sides or r.choice('bB22')
    jitter = lambda x: min(1.0, x * (1 + r.choice([0, 1e-3]) * r.uniform(-1, 1)))
    B = sorted(jitter(place(i, False)) for i in range(n)) if sides != 'b' else [1.0] * n
    b = sorted(jitter(place(i + 1, True)) for i in range(n)) if sides != 'B' else [0.0] * n
    if m:
        return q(m, runs_of([int(x * m) for x in b]), runs_of([min(m, int(x * m) + 1) for x in B]))
    return doubles(b, B)


def rare_levels(r, n, K, p):
    """Upper bounds at K levels, each of which is crossed with a probability just below p."""
    m = r.choice([16, 20, 32])
    B = []
    for l in sorted(r.sample(range(1, m), K)):
        t, k, tail = l / m, 0, 0.0
        while k < n:                                    # Pr[Bin(n, t) <= k]
            tail += math.exp(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1) + k * math.log(t) + (n - k) * math.log1p(-t))
            if tail > p:
                break
            k += 1
        B += [l] * (k - len(B))                         # k points by l/m, at least
    return q(m, [], runs_of(B + [m] * (n - len(B))))


def line(r, n, side=None, p=None):
    """n different bounds on a straight line, which is crossed with probability about p: the exact number is known for
    every n (LineCount in spec/Crossing.tla)."""
    p = p if p is not None else r.choice([0.5, 0.9, 0.1, 1e-2, 1e-4, 1e-6, 1e-8])
    m = r.choice([n, n, n + 1, 2 * n + 1, 1 << (10 * n).bit_length()])
    d = math.sqrt(-math.log(p) / 2 / n)   # sup (F_n - F) > d with probability about exp(-2nd^2)
    a = max(1, m // n if m <= 3 * n else round(m / n * r.uniform(0.97, 1)))
    # sF_n with s = na/m: the line through (1, 1) or (0, 0) at the same distance
    k = max(0, min(n - 1, round(d * n)))
    if r.random() < 0.15:
        k = r.randint(0, 3)               # near the diagonal
    while (n - k) * a > m:
        k += 1
    runs = merge([[k, 0]]) + [[1, i * a] for i in range(1, n - k + 1)]
    side = side or r.choice('bB')
    x = q(m, runs, [])
    if side == 'B':
        x = as_lower(x)
    x['line'] = {'k': k, 'a': a}
    return x


def narrow(r, n, w):
    """b_i < i/n < B_i with about w/n on each side, nearly all bounds different."""
    m = 1 << (4 * n).bit_length()
    h = w / n
    b = sorted(max(0, min(m, math.floor(m * (i / n - h + r.uniform(-.4, .4) / n)))) for i in range(n))
    B = sorted(max(0, min(m, math.ceil(m * ((i + 1) / n + h + r.uniform(-.4, .4) / n)))) for i in range(n))
    return q(m, runs_of(b), runs_of(B))
