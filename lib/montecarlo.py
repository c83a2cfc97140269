"""C13, C14: crossprob_mc estimates the exact probabilities (spec/MCTrace)."""
import math, re
import gen
from vc import *

SHOWN = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?|[-+]?(nan|inf)')


def number_text(level, m):
    if level < 0:
        return '-0.25'
    if level > m:
        return '1.25'
    return repr(level / m)


def list_text(runs, m):
    return ', '.join(number_text(l, m) for l in expand(runs))


class Files:
    """Boundary files in a directory that is removed at the end."""
    def __init__(self):
        os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='files.', dir=os.path.join(BUILD, 'traces'))
        self.n = 0
        self.lock = threading.Lock()

    def new(self, text, name=None):
        with self.lock:
            self.n += 1
            p = os.path.join(self.dir, name or 'b%d.txt' % self.n)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def mc_run(exe, args, clock=1700000000, env=None, timeout=600, cwd=None):
    """(exit status or 'hang', output)"""
    e = clean_env(LD_PRELOAD=fake_clock(), FAKE_TIME=str(clock), **(env or {}))
    try:
        p = run_limited([exe] + args, env=e, timeout=timeout, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'hang', ''
    except UnicodeDecodeError:
        return 'garbage', ''


def last_line(out):
    lines = out.strip().split('\n')
    return lines[-1].strip() if lines else ''


def estimate(status, out):
    line = last_line(out)
    if status != 0:
        return {'k': 'crash' if status == 'hang' or status < 0 or status > 125 else 'error', 'why': '%s: %s' % (status, line[-200:])}
    if not SHOWN.fullmatch(line):
        return {'k': 'noresult', 'why': line[-200:]}
    return dict(decimal(line), show=line)


def perform(runs):
    """runs: dicts with cmd, m, b, B, N, clock (or clocks). Fills in the outcomes."""
    exe = os.path.join(programs(), 'bin', 'crossprob_mc')
    fake_clock()
    with Files() as files:
        paths = {}
        for r in runs:
            t = list_text(r['b'], r['m']) + '\n' + list_text(r['B'], r['m']) + '\n'
            if t not in paths:
                paths[t] = files.new(t)
            r['path'] = paths[t]

        def one(r):
            r = dict(r)
            p = r.pop('path')
            if r['t'] == 'run':
                r['out'] = estimate(*mc_run(exe, [r['cmd'], p, str(r['N'])], r['clock']))
            else:
                r['vs'] = [estimate(*mc_run(exe, [r['cmd'], p, str(r['N'])], c)) for c in r.pop('clocks')]
                r['out'] = {'k': 'values', 'show': ' '.join(v.get('show', v['k']) for v in r['vs'][:8])}
                r['tol'] = math.ceil(9.2 * math.sqrt(len(r['vs'])))
            return r
        order = sorted(range(len(runs)), key=lambda i: -runs[i]['N'] * (1 + sum(c for c, _ in runs[i]['b'] + runs[i]['B'])))
        res = dict(zip(order, pmap(one, [runs[i] for i in order])))
    return [res[i] for i in range(len(runs))]


def unequal(r, n, m, nb, nB):
    """A list for the lower bounds of nb numbers and one for the upper bounds of nB, around i/n."""
    w = r.uniform(0.7, 2.2) * 0.5 / math.sqrt(max(n, 1))
    b = sorted(max(0, min(m, round(m * (i / n - w - r.uniform(0, 0.5) / n)))) for i in range(nb))
    B = sorted(max(0, min(m, round(m * ((i + 1) / n + w + r.uniform(0, 0.5) / n)))) for i in range(nB))
    return runs_of(b), runs_of(B)


def questions(cmd, r, T):
    out = []
    def add(m, b, B, N, **kw):
        out.append(dict({'t': 'run', 'cmd': cmd, 'm': m, 'b': b, 'B': B, 'N': N, 'clock': 1700000000 + len(out)}, **kw))
    # everything on small grids: lists of all lengths and orders, also outside of [0,1]
    for x in enumerate_questions('pairs', 2, 2, valid=False):
        add(x['m'], x['b'], x['B'], 40000 if T else 8000)
    for x in enumerate_questions('singles', 3, 3, valid=False):
        if T or r.random() < 0.5:
            add(x['m'], x['b'], [], 40000 if T else 8000)
            add(x['m'], [], x['b'], 40000 if T else 8000)
    f = 5 if T else 1
    # one bound matters
    for n in range(1, 8):
        for i in range(n):
            for side in 'bB':
                m = r.choice([5, 10, 64])
                lv = min(m - 1, max(1, round(m * (i + 0.5) / n)))
                if side == 'b':
                    b, B = runs_of([0] * i + [lv] * (n - i)), runs_of([m] * n)
                else:
                    b, B = runs_of([0] * n), runs_of([lv] * (i + 1) + [m] * (n - i - 1))
                add(m, b, B, 1000000 if T else 100000)
                if cmd == 'ecdf' or side == 'B':
                    add(m, b if side == 'b' else [], B if side == 'B' else [], 100000)
    for _ in range(60 * f):
        x = gen.small_pair(r, 8)
        add(x['m'], x['b'], x['B'], 200000)
    for _ in range(60 * f):
        n, k, m = r.randint(1, 12), r.randint(0, 12), r.choice([4, 10, 32, 100])
        b, B = unequal(r, max(n, k), m, n, k)
        if r.random() < 0.3:
            b = []
        add(m, b, B, 200000)
    for _ in range(20 * f):                                  # any order
        n, k, m = r.randint(1, 6), r.randint(0, 6), 10
        add(m, runs_of([r.randint(0, 6) for _ in range(n)]), runs_of([r.randint(4, 10) for _ in range(k)]), 100000)
    for n in [20, 30, 50, 100] * f + ([300, 1000] if T else [300]):
        for _ in range(3):
            m = 64
            if cmd == 'ecdf':
                x = gen.corridor(r, n, m=m, width=r.uniform(0.9, 2) * 0.5 / math.sqrt(n))
                b, B = x['b'], x['B']
                if r.random() < 0.3:
                    b = []
                if r.random() < 0.2:
                    B = runs_of(expand(B)[:r.randint(1, n)])
            else:
                k = max(1, n - round(r.uniform(0.5, 2.5) * math.sqrt(n)))
                b, B = unequal(r, k + (n - k) / 2, m, n, k)
                if r.random() < 0.3 and n <= (100 if T else 50):
                    b = []
            add(m, b, B, max(20000, 4000000 // n))
    # long lists, few different numbers
    for n in [700, 740, 750, 800, 1000, 1024, 1500, 2000, 2147, 2148, 3000, 4096, 5000] * (2 if T else 1):
        x = gen.one_level(r, n, m=r.choice([8, 16]), kind='both')
        b, B = x['b'], x['B']
        if cmd == 'ecdf':
            b = r.choice([b, b, b, []])
            B = r.choice([B, B, gen.runs_of(expand(B)[:n - r.randint(1, n // 10)]), []]) if b else B
        else:
            B = gen.runs_of(expand(B)[:n - round(r.uniform(0.5, 2.5) * math.sqrt(n))])
        add(x['m'], b, B, max(2000, 6000000 // n))
    # few simulations, and odd numbers of them
    for N in [1, 2, 3, 5, 7, 10, 99, 100, 101, 1000, 4097, 9999, 49999]:
        for _ in range(3):
            x = gen.small_pair(r, 5)
            add(x['m'], x['b'], x['B'], N)
            add(x['m'], [] if r.random() < 0.5 else x['b'], x['B'], N)
    # certain and impossible
    for n in (1, 2, 5, 40):
        add(4, [[n, 0]], [[n, 4]], 10000)
        add(4, [], [[n, 4]], 10000)
        add(4, [[n, 0]], [], 10000)
        add(4, [[n, 0]], [[n, 0]], 10000)
        add(4, [[n, 4]], [[n, 4]], 10000)
        add(4, [[n, 3]], [[n, 2]], 10000)
        add(4, [[n, 0]], [[n + 1, 4]], 10000)
        add(4, [[n + 1, 0]], [[n, 4]], 10000)
        add(4, [[n + 2, 0]], [[1, 4]], 10000)
    add(4, [], [], 1000)
    # long runs: no simulation may be used twice
    big = 100000000 if T else 10000000
    for k in range(2):
        if cmd == 'ecdf':
            b, B = ([[1, 9]], []) if k else ([], [[1, 13]])
        else:
            b, B = ([], [[1, 11]]) if k else ([[1, 3]], [])
        c0 = r.randint(10 ** 9, 2 * 10 ** 9)
        out.append({'t': 'spread', 'cmd': cmd, 'm': 20, 'b': b, 'B': B, 'N': big,
                    'clocks': [c0 + 86400 * i + r.randint(0, 80000) for i in range(16 if k else 12)]})
    # rare events: the points come close to 0, to 1, and to anywhere else
    f = 10 if T else 1
    for e, N in ((17, 30000000 * f), (20, 100000000 * f)) + (((24, 2000000000), (25, 2000000000)) if T else ()):
        m = 2 ** e
        spots = [0, m - 1, m // 2, r.randint(1, m - 2)] if e == 17 or T else [0, m - 1, r.randint(1, m - 2)]
        for x in spots:
            if cmd == 'ecdf':
                b, B = ([[1, x]] if x else [], [[1, x + 1]] if x < m - 1 else [])
            else:
                b, B = [] if x == 0 else [[1, x]], [[1, x + 1]]
            add(m, b, B, N)
    for m, n in ((2 ** 10, 2), (2 ** 7, 3)):
        add(m, [], [[n, 1]], 30000000 * f)
        add(m, [[n, m - 1]], [] if cmd == 'ecdf' else [[n, m]], 30000000 * f)
    # independence of the simulations
    for n in [1, 1, 2, 2, 3, 10] + ([30, 100] if T else []):
        x = gen.corridor(r, n, m=20, width=0.45 / math.sqrt(n)) if cmd == 'ecdf' else None
        b, B = (x['b'], x['B']) if x else unequal(r, n, 20, n, max(1, n - int(1.2 * math.sqrt(n))))
        if n == 1:
            b, B = [[1, r.randint(6, 14)]], [[1, 20]]
        if n == 2:                        # the first, or the last point, or the gap between them
            b, B = r.choice([([[2, r.randint(4, 8)]], [[2, 20]]), ([[1, 0], [1, r.randint(12, 16)]], [[2, 20]]), ([[1, 0], [1, 10]], [[1, 10], [1, 20]])])
        c0 = r.randint(10 ** 9, 2 * 10 ** 9)
        out.append({'t': 'spread', 'cmd': cmd, 'm': 20, 'b': b, 'B': B, 'N': 400,
                    'clocks': [c0 + 86400 * i % (10 ** 9) + r.randint(0, 80000) for i in range(6000 if T else 1500)]})
    return out


def describe(e):
    return '%s n=%d m=%d b=%s B=%s N=%d -> %s' % (e['cmd'], max(sum(c for c, _ in e['b']), sum(c for c, _ in e['B'])), e['m'],
                                                  json.dumps(e['b'])[:150], json.dumps(e['B'])[:150], e['N'],
                                                  e['out'].get('show', e['out'].get('why', '')))


def check(pid, ev):
    cmd = 'ecdf' if pid == 'C13' else 'poisson'
    qs = questions(cmd, gen.rng_for(SEED, pid), THOROUGH)
    res = perform(qs)
    for e in res[::max(1, len(res) // 8)]:
        ev.samples.append(describe(e))
    ev.extra['runs'] = sum(len(e.get('vs', [0])) for e in res)
    ev.extra['simulations'] = sum(e['N'] * len(e.get('vs', [0])) for e in res)
    ev.assumptions.append('statistical: an estimate is rejected beyond about 6.4 standard deviations; the clock is fixed, so the runs are the same every time')
    bad = check_traces('MCTrace', [{'ev': [e]} for e in res], ev)
    if not bad:
        return []
    idx = sorted({b[0] - 1 for b in bad}, key=lambda i: sum(c for c, _ in qs[i]['b'] + qs[i]['B']))[:20]
    again = perform([qs[i] for i in idx])
    def report(es, rejected):
        return [{'event': es[s - 1], 'text': describe(es[s - 1])} for s, l in rejected]
    return stands(report(res, bad), report(again, check_traces('MCTrace', [{'ev': [e]} for e in again])))
