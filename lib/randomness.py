"""C15: the random stream is TinyMT64 (spec/TinyMT, spec/TinyMTTrace), whose period is 2^127-1 (spec/TinyMTPeriod); Monte-Carlo runs are reproducible (spec/MCRuns)."""
import gen, montecarlo
from vc import *

M64 = 2 ** 64 - 1
STANDARD = (0xfa051f40, 0xffd0fff4, 0x58d02ffeffbfffbc)
KINDS = ['u64', 'double', 'd01', 'd12', 'dOC', 'dOO']
# the first numbers that the reference implementation prints for the standard parameters and seed 1
REFERENCE = [15503804787016557143, 17280942441431881838, 2177846447079362065]


def seeded_zero(r, top):
    """Parameters and a seed for which the seeding function leaves an all-zero state."""
    mat1, mat2 = STANDARD[:2] if r.random() < 0.5 else (r.getrandbits(32), r.getrandbits(32))
    st = [top << 63, 0]
    for i in range(7, 0, -1):
        o = st[(i - 1) & 1]
        st[i & 1] ^= (i + 6364136223846793005 * (o ^ (o >> 62))) & M64
    return (mat1, mat2, st[1] ^ mat2), st[0] ^ (mat1 << 32)


def unshift(x, k):
    """y with y ^ (y << k) = x."""
    y = x
    for _ in range(64 // k + 1):
        y = x ^ ((y << k) & M64)
    return y


def seeded_output(r, out):
    """Parameters and a seed for which the first output is the even number out."""
    mat1, mat2 = STANDARD[:2] if r.random() < 0.5 else (r.getrandbits(32), r.getrandbits(32))
    while True:
        n0 = r.choice([0, M64, r.getrandbits(64), r.getrandbits(64), r.getrandbits(64)]) 
        n1 = ((out ^ (n0 >> 8)) - n0) & M64
        x = n1 ^ (mat2 << 32 if n1 & 1 else 0)
        s1 = n0 ^ (mat1 if n1 & 1 else 0)
        x = unshift(unshift(x, 11), 32)
        x ^= x >> 32
        a = unshift(x, 12) ^ s1
        if a >> 63 == 0 and (a or s1):
            break
        if n0 in (0, M64) and r.random() < 0.9:
            continue
    st = [a | r.getrandbits(1) << 63, s1]
    for i in range(7, 0, -1):
        o = st[(i - 1) & 1]
        st[i & 1] ^= (i + 6364136223846793005 * (o ^ (o >> 62))) & M64
    return (mat1, mat2, st[1] ^ mat2), st[0] ^ (mat1 << 32)


def extreme(r):
    k = r.choice([1, 2, 8, 9, 10, 11, 12, 13, 20, 32, 52, 53, 63])
    return r.choice([0, 2, M64 - 1, (1 << k) & ~1, (M64 << k) & M64, (1 << 64 - k) & ~1 & M64, ((1 << 64 - k) - 1) & ~1,
                     M64 - 1 - (1 << k), (1 << 63) - 2, 1 << 63, (1 << 63) + (1 << k)]) & M64 & ~1


def plan(r, length, params=None):
    ev, objs = [], []
    while len(ev) < length:
        if len(objs) < 3 and (not objs or r.random() < 0.15):
            p = params or r.choice([STANDARD, STANDARD, STANDARD, (r.getrandbits(32), r.getrandbits(32), r.getrandbits(64)),
                                    (0, 0, 0), (2 ** 32 - 1, 2 ** 32 - 1, M64)])
            o = len(objs)
            objs.append(o)
            if r.random() < 0.6:
                seed = r.choice([0, 1, M64, 2 ** 63, 2 ** 32, 1700000000 + (r.randint(0, 5000) << 20), r.getrandbits(64), r.getrandbits(32)])
                ev.append({'t': 'init', 'obj': o, 'p': p, 'Seed': seed})
            else:
                n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20])
                ev.append({'t': 'array', 'obj': o, 'p': p, 'Keys': [r.choice([1, 0, M64, r.getrandbits(64)]) for _ in range(n)]})
        else:
            ev.append({'t': 'draw', 'obj': r.choice(objs), 'kind': r.choice(KINDS), 'count': r.choice([1, 2, 10, 60])})
    return ev


def play(exe, env, events):
    d = Driver([exe], env=env)
    out = []
    try:
        for e in events:
            e = dict(e)
            if e['t'] == 'draw':
                rep = d.ask('draw %d %s %d' % (e['obj'], e['kind'], e['count']))
            else:
                p = e.pop('p')
                e['params'] = ' '.join(map(str, p))
                e.update(zip(('mat1', 'mat2', 'tmat'), map(limbs, p)))
                if e['t'] == 'init':
                    s = e.pop('Seed')
                    e['seed'] = limbs(s)
                    e['show'] = str(s)
                    rep = d.ask('init %d %s %d' % (e['obj'], e['params'], s))
                else:
                    k = e.pop('Keys')
                    e['keys'] = [limbs(x) for x in k]
                    e['show'] = str(k)
                    rep = d.ask('array %d %s %d %s' % (e['obj'], e['params'], len(k), ' '.join(map(str, k))))
            if isinstance(rep, tuple):
                e['out'] = {'k': rep[0], 'why': rep[1][-300:]}
            elif rep.startswith('ok'):
                e['out'] = {'k': 'ok', 'zero': int(rep.split()[1])}
            else:
                w = rep.split()[1:]
                vs = [dict(k='value', **frac(0, int(x), 1)) if e['kind'] == 'u64' else number(float.fromhex(x)) for x in w[:-1]]
                e['out'] = {'k': 'values', 'v': vs, 'zero': int(w[-1]), 'show': ' '.join(w[:3])}
            out.append(e)
            if e['out']['k'] in ('crash', 'hang'):
                break
    finally:
        d.close()
    return out


def describe(e):
    if e['t'] == 'draw':
        return 'draw %s -> %s' % (e['kind'], e['out'].get('show', e['out']['k']))
    return '%s params %s seed %s -> %s' % (e['t'], e['params'], e['show'], e['out'])


def histories(r, T):
    hs = [('std', [{'t': 'init', 'obj': 0, 'p': STANDARD, 'Seed': 1}] + [{'t': 'draw', 'obj': 0, 'kind': k, 'count': 60} for k in KINDS])]
    for k in range(200 if T else 40):
        hs.append(('std', plan(r, 24)))
    for k in range(60 if T else 20):
        p, seed = seeded_zero(r, k % 2)
        hs.append(('std', [{'t': 'init', 'obj': 0, 'p': p, 'Seed': seed}] + [{'t': 'draw', 'obj': 0, 'kind': x, 'count': 5} for x in KINDS]))
    for k in range(400 if T else 90):
        p, seed = seeded_output(r, [0, M64 - 1, M64 << 12 & M64, M64 << 11 & M64][k] if k < 4 else extreme(r))
        for x in KINDS:
            hs.append(('std', [{'t': 'init', 'obj': 0, 'p': p, 'Seed': seed}, {'t': 'draw', 'obj': 0, 'kind': x, 'count': 1}]))
    for n in range(0, 20):
        hs.append(('std', [{'t': 'array', 'obj': 0, 'p': STANDARD, 'Keys': [r.getrandbits(64) for _ in range(n)]},
                           {'t': 'draw', 'obj': 0, 'kind': 'u64', 'count': 4}]))
    for s in list(range(64)) if T else range(0, 64, 5):
        hs.append(('std', [{'t': 'init', 'obj': 0, 'p': STANDARD, 'Seed': 1 << s}, {'t': 'draw', 'obj': 0, 'kind': 'u64', 'count': 4}]))
    for k in range(4):
        hs.append(('asan', plan(r, 30)))
    if T:
        hs += [('std', [{'t': 'init', 'obj': 0, 'p': STANDARD, 'Seed': r.getrandbits(64)}] +
                [{'t': 'draw', 'obj': 0, 'kind': r.choice(KINDS), 'count': 200} for _ in range(30)]) for k in range(16)]
    return hs


def run_histories(hs):
    exes = {v: harness('tinymt_driver', v) for v in sorted({h[0] for h in hs})}
    envs = {'std': {}, 'asan': {'ASAN_OPTIONS': 'detect_leaks=0'}}
    return pmap(lambda h: {'ev': play(exes[h[0]], envs[h[0]], h[1])}, hs)


def streams(ev):
    r = gen.rng_for(SEED, 'C15')
    if harness('tinymt_driver', optional=True) is None:
        log('note: TinyMT64 could not be driven directly; only the Monte-Carlo runs are checked')
        return []
    hs = histories(r, THOROUGH)
    res = run_histories(hs)
    got = res[0]['ev'][1]['out']
    for x in res[::max(1, len(res) // 5)]:
        ev.samples.append(' ; '.join(describe(e)[:120] for e in x['ev'][:3]))
    ev.extra['draws'] = sum(e.get('count', 0) for h in hs for e in h[1])
    bad = check_traces('TinyMTTrace', res, ev)
    if not bad:
        # the model itself: it accepted the stream that starts with the reference numbers
        if [sum(x << (15 * i) for i, x in enumerate(v['num'])) for v in got['v'][:3]] != REFERENCE:
            raise CheckError('the model of TinyMT64 does not produce the reference stream')
        return []
    idx = sorted({b[0] - 1 for b in bad})[:10]
    again = run_histories([hs[i] for i in idx])
    def report(xs, rejected):
        return [{'history': [describe(e)[:200] for e in xs[s - 1]['ev'][:l]],
                 'text': 'TinyMT64, request %d after %s: %s' % (l, describe(xs[s - 1]['ev'][0]), describe(xs[s - 1]['ev'][l - 1]))}
                for s, l in rejected]
    return stands(report(res, bad), report(again, check_traces('TinyMTTrace', again)))


def run_sessions(r, T):
    """Plans of Monte-Carlo runs: every question at several clock times, each several times."""
    out = []
    for k in range(24 if T else 8):
        n = [1, 2, 3, 10, 10, 40, 100, 300][k % 8]
        N = 2000000 // (n + 1) if k % 2 else 300000 // (n + 1) + 1000
        cmd = 'poisson' if k % 3 == 2 else 'ecdf'
        if cmd == 'ecdf':
            x = gen.corridor(r, n, m=64, width=0.5 / n ** 0.5)
            b, B = x['b'], x['B']
            if n == 1:
                b, B = [[1, 20]], [[1, 40]]
            if k % 5 == 4:
                b = []
        else:
            b, B = montecarlo.unequal(r, n, 64, n, max(1, n - int(1.5 * n ** 0.5)))
        c0 = r.choice([0, 1, 10 ** 9, 1700000000, 1999999999, 2 ** 31 - 40]) + r.randint(0, 20)
        clocks = [c0 + i for i in range(8)] + [c0 + 86400, c0 + 3600]
        out.append((cmd, montecarlo.list_text(b, 64) + '\n' + montecarlo.list_text(B, 64) + '\n', N, clocks))
    return out


def runs(ev, only=None):
    r = gen.rng_for(SEED, 'C15 runs')
    plans = run_sessions(r, THOROUGH)
    if only is not None:
        plans = [plans[i] for i in only]
    exe = os.path.join(programs(), 'bin', 'crossprob_mc')
    fake_clock()
    with montecarlo.Files() as files:
        os.makedirs(os.path.join(files.dir, 'elsewhere'))
        other = os.path.join(files.dir, 'the same program')
        os.symlink(exe, other)
        work = []
        for i, (cmd, text, N, clocks) in enumerate(plans):
            p1 = files.new(text)
            p2 = files.new(text, 'a much longer name of the same %d.csv' % i)
            os.utime(p2, (600000000 + i, 600000000 + i))
            for c in clocks:
                work.append((i, cmd, p1, N, c, {'MALLOC_PERTURB_': '0'}, None))
                work.append((i, cmd, p2, N, c, {'MALLOC_PERTURB_': '171', 'SOMETHING': 'x' * 3000, 'TZ': 'Asia/Tokyo', 'LANG': 'de_DE.UTF-8',
                                                       'USER': 'nobody', 'HOME': '/nowhere', 'SEED': '5', 'RANDOM': '7', 'OMP_NUM_THREADS': '3'}, os.path.join(files.dir, 'elsewhere')))
            work += [(i, cmd, p1, N, c, {'MALLOC_PERTURB_': '255'}, None) for c in clocks[:3]]
        outs = pmap(lambda w: montecarlo.mc_run(other if w[6] else exe, [w[1], w[2], str(w[3])], w[4], w[5], cwd=w[6]), work)
    ss = [{'ev': []} for _ in plans]
    for w, (status, out) in zip(work, outs):
        e = montecarlo.estimate(status, out)
        ss[w[0]]['ev'].append({'t': 'run', 'cmd': w[1], 'text': w[0], 'N': w[3], 'clock': w[4], 'ok': 1 if e['k'] == 'value' else 0,
                               'out': montecarlo.last_line(out)[:200], 'env': w[5]})
    for i, (cmd, text, N, clocks) in enumerate(plans):
        ss[i]['ev'].append({'t': 'varied', 'cmd': cmd, 'text': i, 'N': N})
    bad = check_traces('MCRuns', ss, ev)
    if ev:
        ev.extra['runs'] = len(work)
        ev.samples.append('; '.join('%s clock %d -> %s' % (e['cmd'], e['clock'], e['out']) for e in ss[0]['ev'][:4]))
    found = []
    for s, l in bad:
        e = ss[s - 1]['ev'][l - 1]
        got = {}
        for x in ss[s - 1]['ev'][:l]:
            if 'out' in x:
                got.setdefault(x['clock'], []).append(x['out'])
        found.append({'plan': s - 1 if only is None else only[s - 1], 'question': plans[s - 1][1], 'text':
                      '%s N=%d at clock %s: printed per clock %s' % (e['cmd'], e['N'], e.get('clock', 'several'), dict(list(got.items())[-4:]))})
    if found and only is None:
        return runs(None, sorted({f['plan'] for f in found}))
    return found


def apart(ev, only=None):
    """The same questions at clock times that are far apart, or that differ in one bit."""
    r = gen.rng_for(SEED, 'C15 apart')
    pairs = []
    for c in [r.randint(1, 2 ** 31) for _ in range(4 if THOROUGH else 1)]:
        d = [2 ** k for k in range(34)] + [2 ** 40, 60, 3600, 86400, 7 * 86400, 365 * 86400, 10, 100, 1000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 9]
        pairs += [(c, c + x, cmd) for x in d for cmd in ('ecdf', 'poisson')]
    if only is not None:
        pairs = [pairs[i] for i in only]
    exe = os.path.join(programs(), 'bin', 'crossprob_mc')
    with montecarlo.Files() as files:
        asked = [('0.5\n1\n', 2003), ('0.3,0.3\n1,1\n', 2500), ('\n0.4\n', 3001), ('\n0.2,0.6,0.9\n', 2750), ('\n0.5,0.8\n', 2222), ('0.1,0.2,0.3\n\n', 3777)]
        asked = [(files.new(t), i, N) for i, (t, N) in enumerate(asked)]
        known = {}
        work = sorted({(cmd, p, i, N, x) for c, d, cmd in pairs for p, i, N in asked for x in (c, d)})
        outs = pmap(lambda w: montecarlo.mc_run(exe, [w[0], w[1], str(w[3])], w[4]), work)
        for w, o in zip(work, outs):
            known[w[0], w[2], w[4]] = o
    ss = []
    for c, d, cmd in pairs:
        es = []
        for x in (c, d):
            for _, i, N in asked:
                e = montecarlo.estimate(*known[cmd, i, x])
                es.append({'t': 'run', 'cmd': cmd, 'text': i, 'N': N, 'clock': str(x), 'ok': 1 if e['k'] == 'value' else 0, 'out': montecarlo.last_line(known[cmd, i, x][1])[:200]})
        ss.append({'ev': es + [{'t': 'differ', 'clock': str(c), 'other': str(d)}]})
    bad = check_traces('MCRuns', ss, ev)
    if ev:
        ev.extra['pairs of clock times'] = len(pairs)
    found = [{'plan': s - 1 if only is None else only[s - 1], 'text': '%s at clocks %d and %d: %s' % (
        pairs[s - 1][2], pairs[s - 1][0], pairs[s - 1][1], [e['out'] for e in ss[s - 1]['ev'][:l] if 'out' in e])} for s, l in bad]
    if found and only is None:
        return apart(None, sorted({f['plan'] for f in found})[:20])
    return found


def check(pid, ev):
    model_check('TinyMTPeriod', ev=ev)
    return streams(ev) + runs(ev) + apart(ev)
