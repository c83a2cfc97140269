"""C22: a process that repeats its calls does not hold more and more (spec/Held, HeldTrace)."""
import gen, api, convolver, files, history, poisson, pyapi
from vc import *

def counter():
    def make(tmp):
        r = run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', os.path.join(tmp, 'heap.so'), os.path.join(VERIF, 'harness', 'heap.c')])
        if r.returncode != 0:
            raise CheckError(r.stdout)
    return os.path.join(once('heap', make), 'heap.so')


def ending(rep):
    """How a call ended. Not its value: that may differ in the last digit with where the buffers lie."""
    if rep.startswith('{'):
        return json.loads(rep)['k']
    return next((w for w in rep.split()[:2] if w in 'VEMX'), '')


def rounds(d, ask, held, n, r):
    """n rounds of the questions of ask(k), each a list of lines to be asked in order; what is held after each. The
    rounds' last calls are always the same."""
    ev = []
    for k in range(n):
        lines = ask(k)
        order = list(range(len(lines)))
        close = order[-min(4, len(order) // 2) or len(order):]
        order = order[:-len(close)]
        r.shuffle(order)
        order += close
        outs = {}
        for i in order:
            got = []
            for l in lines[i]:
                rep = d.ask(l)
                if isinstance(rep, tuple):
                    return ev + [{'t': 'died', 'why': '%s: %s' % rep, 'call': l[:300]}]
                got.append(ending(rep))
            outs[i] = got
        rep = d.ask(held)
        if isinstance(rep, tuple) or not rep.startswith('H '):
            return ev + [{'t': 'died', 'why': str(rep), 'call': held}]
        x = [int(t) for t in rep.split()[1:]]
        text = json.dumps([outs[i] for i in range(len(lines))])
        ev.append({'t': 'round', 'calls': sum(len(l) for l in lines), 'out': hashlib.sha256(text.encode()).hexdigest()[:16],
                   'blocks': x[0], 'bytes': x[1], 'files': x[2]})
    return ev


def moved(v, k):
    """The same list with its numbers moved, in the same order (0 and 1, and what is no number between, stay)."""
    return [x if isinstance(x, str) or not 0 < x < 1 else x ** (1 + k / 97.0) for x in v]


def api_job(name, calls, n, seed, fresh=False):
    """fresh: other numbers in every round."""
    def lines(k):
        out = []
        for i, (kind, op, x) in enumerate(calls):
            b, B = x['raw'] if 'raw' in x else api.lists(x)
            out.append(['q%d %s %s %s' % (i, op, hexlist(moved(b, k * fresh)), hexlist(moved(B, k * fresh)))])
        return out
    return {'name': name, 'exe': [harness('api_driver')], 'lines': lines, 'held': 'held', 'n': n, 'seed': seed}


def file_job(name, n, seed, scratch, r):
    lines = [['path ' + p] for p in ('/nonexistent', '/', scratch + '.none', '')]
    for t in ('', '\n', '0.5', '0.25,0.5\n0.5,1\n', '0.1, 0.2\n0.3', 'x\n1', '1\nx', '0.5,,1\n', '\n0.5\n', '0.5\n\n', '1\n2\n3\n', '0x1,0.5', '1 2\n', '-0.5\n',
              '1e400\n1', 'nan\n0.5', '0.5,\n1,\n', '0.5\r\n1\r\n', '\0', '0.5\0,1\n'):
        lines.append(['text ' + t.encode('latin-1').hex()])
    for k in range(12):
        t = files.good_line(r, r.choice([1, 3, 40, 1000])) + '\n' + files.good_line(r, r.choice([1, 40, 1000])) + r.choice(['', '\n', '\n\n', '\nx'])
        lines.append(['text ' + t.encode().hex()])
    return {'name': name, 'exe': [harness('file_driver'), scratch], 'lines': lines, 'held': 'held', 'n': n, 'seed': seed}


def conv_job(name, n, seed, r):
    lines = []
    for k in range(20):
        M = r.choice([1, 2, 3, 7, 8, 64, 100, 300])
        one = ['new %d %d' % (k, M)]
        for j in range(3):
            size = r.choice([0, 1, M // 2, M, M, M + 1])
            m = size + r.choice([0, 1, 5])
            a = ' '.join(float(r.random()).hex() for _ in range(m))
            b = ' '.join(float(r.random()).hex() for _ in range(m))
            one.append('conv %d %d %d 0 0 0 %d %s %s' % (k, size, m, r.choice([0, 1, 2, 3]), a, b))
        one.append('del %d' % k)
        lines.append(one)
    for k in range(20, 26):           # requests of one length only, which need transforms of one length only
        size = r.choice([130, 500, 1030, 1500, 2100, 3000])
        a, b = ([' '.join(float(r.randint(0, 1000)).hex() for _ in range(size))] * 2)
        lines.append(['new %d %d' % (k, size + r.choice([0, 0, 1, 1500]))] + ['conv %d %d %d 0 0 0 0 %s %s' % (k, size, size, a, b)] * 2 + ['del %d' % k])
    return {'name': name, 'exe': [harness('conv_driver')], 'lines': lines, 'held': 'held', 'n': n, 'seed': seed}


def poisson_job(name, n, seed, r):
    lines = []
    for k in range(20):
        top = r.choice([1, 2, 5, 100, 3000])
        one = ['new %d %d' % (k, top)]
        for j in range(4):
            lam = float(r.choice([0.0, 1.0, 1e-300, 50.0, 700.0, 1e5, -1.0])).hex()
            one.append('array %d %d %s' % (k, r.choice([0, top // 2, top]), lam))
        one.append('del %d' % k)
        lines.append(one)
    return {'name': name, 'exe': [harness('poisson_driver')], 'lines': lines, 'held': 'held', 'n': n, 'seed': seed}


def py_job(name, module, python, calls, n, seed):
    lines = [[json.dumps(told)] for e, told in calls]
    return {'name': name, 'exe': [python, '-W', 'ignore', '-B', os.path.join(VERIF, 'harness', 'py_driver.py')], 'lines': lines,
            'held': json.dumps({'f': 'held'}), 'n': n, 'seed': seed, 'env': {'PYTHONPATH': module, 'PYTHONMALLOC': 'malloc', 'PYTHONHASHSEED': '0'}}


def play(job):
    if 'peak' in job:
        return peak(job)
    d = Driver(job['exe'], env=dict(job.get('env', {}), LD_PRELOAD=counter()), timeout=200)
    try:
        slack = 16 if 'env' in job else 0
        return {'ev': rounds(d, job['lines'] if callable(job['lines']) else lambda k: job['lines'], job['held'], job['n'], random.Random(job['seed'])), 'slack': {'blocks': slack, 'bytes': 64 * slack}}
    finally:
        d.close()


def peak(job):
    """The largest number of bytes allocated at a time, for each number of repetitions."""
    ev = []
    for n in job['peak']:
        cmd = [os.path.join(programs(), 'bin', job['exe'])] + [str(n) if a == 'N' else a for a in job['args']]
        fd, name = tempfile.mkstemp(dir=os.path.dirname(job['args'][1]))
        os.close(fd)
        r = run_limited(cmd, env=clean_env(LD_PRELOAD=counter(), HEAP_PEAK=name), timeout=200, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got = open(name).read().strip()
        os.unlink(name)
        if r.returncode != 0 or not got:
            ev.append({'t': 'died', 'why': '%d: %s' % (r.returncode, r.stdout[-300:]), 'call': ' '.join(cmd)})
        else:
            ev.append({'t': 'peak', 'n': n, 'bytes': int(got)})
    return {'ev': ev, 'slack': {'blocks': 0, 'bytes': 4096}}


def extreme(r):
    """Lists as few users have them: nothing possible, nothing forbidden, nearly so, all in one place."""
    out = []
    def add(kind, op, b, B):
        out.append((kind, op, {'raw': (b, B)}))
    for op in history.OPS:
        for n in (1, 2, 3, 10, 40, 200):
            m = r.randint(1, n)
            for kind, b, B in (('zeros', [0.0] * n, [0.0] * n), ('ones', [1.0] * n, [1.0] * n), ('all', [0.0] * n, [1.0] * n),
                               ('none', [1.0] * n, [0.0] * n), ('half', [0.5] * n, [0.5] * n),
                               ('zeros first', [0.0] * n, [0.0] * m + [0.75] * (n - m)), ('ones last', [0.25] * (n - m) + [1.0] * m, [1.0] * n),
                               ('tiny', [1e-300] * n, [1e-299] * n), ('close', [0.5] * n, [0.5 + 1e-12] * n)):
                add(kind, op, [] if op in api.UPPER else b, [] if op in api.LOWER else B)
        for n in (1100, 2100) if not op.startswith('mns') else ():      # transforms of one length only
            if op in api.BOTH:
                add('one step', op, [0.0] * n, [0.5] * n)
                add('one step', op, [0.5] * n, [1.0] * n)
            else:
                add('one step', op, [] if op in api.UPPER else [0.5] * n, [] if op in api.LOWER else [0.5] * n)
    return out


def jobs(r, T, scratch):
    out = []
    n = 45 if T else 15
    seed = lambda: r.randrange(10 ** 9)
    for k in range(6 if T else 1):
        p = history.pool(r, True)
        for op in history.OPS:
            out.append(api_job('calls of ' + op, [c for c in p if c[1] == op], n, seed()))
        out.append(api_job('calls of all', p, n, seed()))
        out.append(api_job('other numbers', p, n, seed(), True))
        e = extreme(r)
        for op in history.OPS:
            out.append(api_job('extreme ' + op, [c for c in e if c[1] == op], n, seed()))
        for kind in sorted({c[0] for c in p}):       # errors by themselves: nothing else hides what they leave
            out.append(api_job('kind ' + kind, [c for c in p if c[0] == kind], n, seed()))
    for k in range(8 if T else 2):
        # internal classes: only while they can be driven like this
        if harness('file_driver', optional=True):
            out.append(file_job('files', n, seed(), os.path.join(scratch, 'text%d' % k), r))
        if harness('conv_driver', optional=True):
            out.append(conv_job('convolvers', n, seed(), r))
        if harness('poisson_driver', optional=True):
            out.append(poisson_job('generators', n, seed(), r))
    modules = [m for m in pmap(python_module, [False, True]) if m]
    ps = pyapi.pythons()
    for i, m in enumerate(modules):
        for k in range(6 if T else 2):
            calls = []
            for op in history.OPS:
                two = op in ('ks', 'fft')
                xs = [c for c in history.pool(r, False) if c[1] == op]
                kinds = pyapi.NUMBERS + pyapi.LOOSE + pyapi.OTHER + ['none']
                for a in kinds:
                    for kind, o, x in r.sample(xs, 4 if a in pyapi.NUMBERS else 1):
                        calls.append(pyapi.call(r, op, x, a, r.choice(pyapi.NUMBERS)))
                        if two:
                            calls.append(pyapi.call(r, op, x, r.choice(pyapi.NUMBERS), a))
                calls += [pyapi.call(r, op, r.choice(xs)[2], 'list', 'list', count=c) for c in (-1, 1, 2)]
            out.append(py_job('Python calls', m, ps[k % len(ps)], calls, n, seed()))
    for cmd in ('poisson', 'ecdf'):
        path = os.path.join(scratch, cmd + '.txt')
        with open(path, 'w') as f:
            f.write('0,0,0\n0.5,0.9,1\n')
        big = 10000000 if T else 300000
        out.append({'name': 'crossprob_mc ' + cmd, 'exe': 'crossprob_mc', 'args': [cmd, path, 'N'], 'peak': [100, big, 100, big]})
    return out


def check(pid, ev):
    model_check('Held', ev=ev)
    r = gen.rng_for(SEED, pid)
    scratch = tempfile.mkdtemp(prefix='held.', dir=os.path.join(BUILD, 'traces'))
    try:
        pmap(lambda f: f(), [counter, lambda: harness('api_driver')] + [lambda x=x: harness(x, optional=True) for x in ('conv_driver', 'file_driver', 'poisson_driver')])
        js = jobs(r, THOROUGH, scratch)
        ss = pmap(play, js)
        for j, s in list(zip(js, ss))[::max(1, len(js) // 12)]:
            ev.samples.append('%s: %s' % (j['name'], ' '.join('%s' % (e.get('blocks', e.get('bytes', 'died')),) for e in s['ev'])))
        ev.extra['sessions'] = {n: sum(1 for j in js if j['name'] == n) for n in sorted({j['name'] for j in js})}
        ev.extra['calls per round'] = sum(s['ev'][0].get('calls', 0) for s in ss)
        bad = check_traces('HeldTrace', ss, ev)
        if not bad:
            return []
        idx = sorted({b[0] - 1 for b in bad})[:10]
        again = pmap(play, [js[i] for i in idx], 1)
        report = lambda xs, rejected, j: [violation(xs[s - 1], l, j(s - 1)) for s, l in rejected]
        # a leak is there every time: what is not is the machine's
        return report(again, check_traces('HeldTrace', again), lambda i: js[idx[i]])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def violation(s, l, j):
    e = s['ev'][l - 1]
    return {'job': {k: v for k, v in j.items() if k != 'lines'}, 'calls': (j['lines'](0) if callable(j.get('lines')) else j.get('lines', []))[:20], 'session': s['ev'],
            'text': '%s, round %d: %s after %s' % (j['name'], l, json.dumps(e), ', '.join(
                '%s/%s/%s' % (x['blocks'], x['bytes'], x['files']) if x['t'] == 'round' else str(x.get('bytes')) for x in s['ev'][:l - 1]))}
