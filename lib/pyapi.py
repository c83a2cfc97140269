"""C11: the Python module (spec/PyTrace)."""
import gen, api, history
from vc import *

F = {'ks': 'ecdf2', 'fft': 'ecdf2', 'new_b': 'ecdf1_new_b', 'new_B': 'ecdf1_new_B', 'mns_b': 'ecdf1_mns2016_b', 'mns_B': 'ecdf1_mns2016_B'}
NUMBERS = ['list', 'tuple', 'array', 'deque', 'seq', 'vector', 'floats', 'sublist', 'memory', 'ints', 'bools', 'numpy',
           'integers', 'mixed', 'userlist', 'bytes', 'bytearray', 'intarray', 'singles', 'range', 'calls']
LOOSE = ['generator', 'iter', 'set', 'fractions', 'decimals', 'hasfloat', 'float32', 'short', 'negative', 'emptystr', 'dict', 'nolength', 'shrinks']
OTHER = ['int', 'float', 'str', 'digits', 'listofstr', 'withnone', 'nonefirst', 'nonemiddle', 'withstr', 'nested', 'pairs', 'complex',
         'huge', 'raises', 'raiseslate', 'object', 'function', 'type', 'module', 'fn']


def flags(r, op, odd=False):
    if odd:
        return 'other', r.choice(['one', 'zero', 'none', 'str', 'list', 'float'])
    return ('true', 'true') if op == 'fft' else ('false', 'false')


def call(r, op, x, kx, ky, flag=False, count=0, kw=False):
    """A call: what PyTrace has to know of it, and what the driver is told."""
    b, B = api.lists(x)
    cls = lambda k: 'numbers' if k in NUMBERS else 'loose' if k in LOOSE else 'none' if k == 'none' else 'other'
    hx = lambda v: [t if isinstance(t, str) else float(t).hex() for t in v]
    two = op in ('ks', 'fft')
    fl, spelled = flags(r, op, flag) if two else ('true', 'true')
    args = [{'kind': kx, 'v': hx(b)}, {'kind': ky, 'v': hx(B)}, {'flag': spelled}] if two \
        else [{'kind': kx, 'v': hx(b if op in api.LOWER else B)}]
    if count < 0:
        args = args[:count]
    elif count > 0:
        args += [{'kind': 'list', 'v': []}] * count
    e = dict(x, id=str(x['id']), kinds=kx + ' ' + ky, f=F[op], x=cls(kx), y=cls(ky), flag=fl, count='wrong' if count else 'right')
    loose = cls(kx) != 'numbers' or two and cls(ky) != 'numbers'
    if kw and not count:                     # by keyword: not promised
        e['x'] = 'loose' if e['x'] == 'numbers' else e['x']
        loose = True
    if loose or fl == 'other':               # the values may not be those of the question
        e['id'] = 'x%d' % r.randrange(10 ** 9)
    if 'set' in (kx, ky) or 'dict' in (kx, ky) or 'emptystr' in (kx, ky) or 'short' in (kx, ky) or 'shrinks' in (kx, ky) or fl == 'other':
        e['anyvalue'] = 1
    return e, {'f': F[op], 'args': args, 'kw': kw and not count}


def integers(r, op):
    """Lists of integers, of any size, valid or not."""
    big = {str(10 ** 6 + i): float(x).hex() for i, x in enumerate([2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 1e300])}
    small = {str(-10 ** 6 + i): float(-x).hex() for i, x in enumerate([1e300, 2 ** 64, 2 ** 63, 2 ** 53, 2 ** 32, 2 ** 31])}
    two = op in ('ks', 'fft')
    lists = [[0, 0, 1], [1], [0], [0, 1], [0, 1, 2], [-1, 0, 1], [0, 2], [2], [-1], [1, 0], [1, 1, 0], [0, 255], [0, 256], [-3, -2, -1, 0, 1, 2]]
    lists += [[0, int(x)] for x in big] + [[int(x), 1] for x in small] + [[int(r.choice(list(big)))], [int(r.choice(list(small)))]]
    out = []
    for v in lists:
        vals = {str(x): t for x, t in list(big.items()) + list(small.items()) if int(x) in v}
        zeros, ones = [[len(v), 0]], [[len(v), 1]]
        pairs = [(runs_of(v), ones), (zeros, runs_of(v))] if two else [(runs_of(v), [])] if op in api.LOWER else [([], runs_of(v))]
        for b, B in pairs:
            out.append(dict(gen.q(1, b, B), grid=0, **({'vals': vals} if vals else {})))
    return [dict(x, id='i%s%d' % (op, i)) for i, x in enumerate(out)]


def large(r, op):
    n = r.randint(1000, 1900 if op in ('mns_b', 'mns_B', 'ks') else 5000)
    x = gen.one_level(r, n, kind='both' if op in ('ks', 'fft') else 'b' if op in api.LOWER else 'B')
    if op in api.LOWER or op in api.UPPER:
        x = dict(x, **{'B' if op in api.LOWER else 'b': []})
    return dict(x, id='n%s' % op)


def session(r, n):
    out = []
    for k in range(n):
        op = r.choice(history.OPS)
        two = op in ('ks', 'fft')
        if k % 60 == 0:
            pool = history.pool(r, False)
            for i, (kind, o, x) in enumerate(pool):
                x['id'] = 's%d.%d' % (k, i)
        kind, o, x = r.choice([p for p in pool if p[1] == op])
        u = r.random()
        kx, ky = r.choice(NUMBERS), r.choice(NUMBERS)
        if u < 0.6:
            out.append(call(r, op, x, kx, ky))
        elif u < 0.66:
            out.append(call(r, op, x, kx, ky, kw=True))
        elif u < 0.72:
            out.append(call(r, op, x, r.choice(LOOSE), r.choice(LOOSE + NUMBERS)))
        elif u < 0.75:
            out.append(call(r, op, x, kx, ky, flag=True))
        elif u < 0.8:
            out.append(call(r, op, x, kx, ky, count=r.choice([-1, 1, 2] + ([-2, -3] if two else []))))
        elif u < 0.84:
            out.append(call(r, op, x, *(('none', ky) if r.random() < 0.5 else (kx, 'none') if two else ('none', ky))))
        else:
            bad = r.choice(OTHER)
            out.append(call(r, op, x, *((bad, ky) if not two or r.random() < 0.5 else (kx, bad) if r.random() < 0.7 else (bad, r.choice(OTHER)))))
    return out


def every_kind(r):
    """Every kind of argument in every place."""
    out = []
    pool = history.pool(r, False)
    for op in history.OPS:
        two = op in ('ks', 'fft')
        xs = [p for p in pool if p[1] == op]
        for k in NUMBERS + LOOSE + OTHER + ['none']:
            for kind, o, x in xs if k in NUMBERS else r.sample(xs, 3):
                out.append(call(r, op, x, k, r.choice(NUMBERS)))
                if two:
                    out.append(call(r, op, x, r.choice(NUMBERS), k))
        for x in integers(r, op):
            for k in ('integers', 'intarray', 'mixed', 'list', 'range', 'bytes'):
                out.append(call(r, op, x, k, k if two and r.random() < 0.5 else r.choice(NUMBERS)))
        x = large(r, op)
        for k in NUMBERS:
            out.append(call(r, op, x, k, r.choice(NUMBERS)))
    r.shuffle(out)
    return out


# The loose kinds whose items are not those of the list.
def play(job):
    module, python, calls = job
    d = Driver([python, '-W', 'ignore', '-B', os.path.join(VERIF, 'harness', 'py_driver.py')], env={'PYTHONPATH': module}, timeout=100)
    ev = []
    try:
        for e, told in calls:
            rep = d.ask(json.dumps(told))
            e = dict(e)
            if isinstance(rep, tuple):
                e['out'], e['kept'] = {'k': rep[0], 'why': rep[1][-300:]}, 0
            else:
                o = json.loads(rep)
                e['kept'] = o.pop('kept')
                if o['k'] == 'value':
                    x = float.fromhex(o['x'])
                    o = dict(number(x), show=repr(x))
                e['out'] = o
                if e.pop('anyvalue', 0) and o['k'] in ('value', 'RuntimeError'):
                    # taken for some other sequence: not judged
                    e['out'] = {'k': 'TypeError', 'why': 'not judged: ' + str(o.get('show', o.get('why')))[:100]}
            e.pop('anyvalue', 0)
            e.pop('vals', 0)
            ev.append(e)
            if isinstance(rep, tuple):
                break
    finally:
        d.close()
    return {'ev': ev}


def describe(e):
    return '%s(%s%s) of %s n=%d b=%s B=%s -> %s %s%s' % (
        e['f'], e['x'], ', %s, %s' % (e['y'], e['flag']) if e['f'] == 'ecdf2' else '', e['kinds'], sum(c for c, _ in e['b'] + e['B']),
        json.dumps(e['b'])[:120], json.dumps(e['B'])[:120], e['out']['k'], e['out'].get('show', e['out'].get('why', '')),
        ['', ' and an argument was modified', ' and a reference was kept'][e['kept']])


def pythons():
    out = [sys.executable]
    vt = '/opt/veriftools/pyvenv/bin/python3'
    if os.path.exists(vt):
        tag = "import sys, sysconfig; print(sysconfig.get_config_var('SOABI'), end='')"
        if run([vt, '-c', tag]).stdout == run([sys.executable, '-c', tag]).stdout:
            out.append(vt)
    return out


def check(pid, ev):
    r = gen.rng_for(SEED, pid)
    modules = [m for m in pmap(python_module, [False, True]) if m]
    ps = pythons()
    ev.extra['modules'] = ['committed wrapper', 'regenerated by SWIG'][:len(modules)]
    jobs = []
    for i, m in enumerate(modules):
        calls = every_kind(r)
        for k in range(0, len(calls), 400):
            jobs.append((m, ps[(k // 400) % len(ps)], calls[k:k + 400]))
        for k in range(40 if THOROUGH else 8):
            jobs.append((m, ps[k % len(ps)], session(r, 400 if THOROUGH else 250)))
    res = pmap(play, jobs)
    outs = {}
    for x in res:
        for e in x['ev']:
            outs[e['out']['k']] = outs.get(e['out']['k'], 0) + 1
    ev.extra['calls'] = outs
    for x in res[:12]:
        ev.samples.append(describe(x['ev'][len(x['ev']) // 2]))
    bad = check_traces('PyTrace', res, ev)
    if not bad:
        return []
    short = [(jobs[s - 1][0], jobs[s - 1][1], jobs[s - 1][2][:l]) for s, l in bad[:20]]
    again = pmap(play, short)
    def report(xs, rejected):
        return [{'calls_before': l - 1, 'event': xs[s - 1]['ev'][l - 1], 'text': describe(xs[s - 1]['ev'][l - 1])} for s, l in rejected]
    return stands(report(res, bad), report(again, check_traces('PyTrace', again)))
