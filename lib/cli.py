"""C10, C16: the command line programs (spec/Cli). TLC enumerates command lines, this file spells them out and runs
them, and TLC judges what was observed."""
import string
import gen, montecarlo, api
from montecarlo import Files, SHOWN, last_line, number_text, list_text
from files import codes, odd
from vc import *

ALGS = ['ecdf1-mns2016', 'ecdf1-new', 'ecdf2-ks2001', 'ecdf2-mn2017']
NAMES = {'crossprob': ALGS, 'crossprob_mc': ['ecdf', 'poisson']}
BAD = {'crossprob': ['', 'ecdf', 'poisson', 'ecdf1', 'ecdf2', 'ecdf1-m2020', 'ecdf1-new2', 'ecdf2-ks', 'ecdf2-ks20011', 'ECDF2-KS2001',
                     'ecdf2_ks2001', ' ecdf2-ks2001', 'ecdf2-mn2017 ', 'ecdf1-new_b', 'ecdf1-mns201', 'Ecdf1-new', 'ecdf1-ks2001',
                     'ecdf2-mns2016', 'ecdf1-mn2017', 'ecdf2-new', 'all', '-h', '--help', '0', '\u00e9cdf1-new', 'ecdf2-ks2001\n', 'x' * 5000],
       'crossprob_mc': ['', 'ecdf2', 'ECDF', 'Poisson', 'poisson ', ' ecdf', 'ecd', 'poissons', 'ecdf2-ks2001', 'ecdf1-new', '--help', '0', 'x' * 5000]}
BAD_COUNTS = ['', ' ', 'abc', '1e3', '10.0', '0x10', '10 ', '10,', '1 000', '1_000', '99999999999999999999', '9223372036854775808',
              '-9223372036854775809', '++5', '5-', '10k', '1.', '.5', 'nan', 'inf', '\u0663', '10\n', '4O']
MINUS = ['-1', '-5', '-1000', '-9223372036854775808', ' -1', '-0000003']
LOOSE = ['0', '-0', '+5', ' 5', '\t7', '+000', ' +12', '00']
LARGE = ['2147483648', '9999999999', '9223372036854775807']        # only where nothing is simulated
LONG = 200                                                         # seconds for billions of simulations, which take 25 to 60


def case_list(T, ev):
    r = tlc('CliCases', env={'MAXODD': '2', 'MAXLEN': '3' if T else '2'})
    out = []
    for m in sorted(re.findall(r'<<"CASE", (.*)>>', r.out)):
        w = [y.strip().strip('"') for y in m.split(',')]
        out.append(dict(zip(('prog', 'argc', 'cmd', 'file', 'lists', 'side', 'n', 'k', 'count'), w),
                        argc=int(w[1]), n=int(w[6]), k=int(w[7])))
    ev.tlc(r)
    ev.models.append('CliCases: %d command lines' % len(out))
    return out


def spell_list(r, lv, m):
    """The text of a list of levels."""
    sep = r.choice([',', ', ', ' , ', ',  '])
    tail = r.choice(['', '', ',']) if lv else ''
    return sep.join(number_text(x, m) for x in lv) + tail


def spell(r, c, big=False):
    """A run for a case: what is asked, and the file text or kind of missing file."""
    n, k, prog = c['n'], c['k'], c['prog']
    m = r.choice([3, 4, 5, 8, 10])
    if c['n'] == c['k'] and n:
        q = gen.small_pair(r, n)
        while sum(x for x, _ in q['b']) != n:
            q = gen.small_pair(r, n)
        m, b, B = q['m'], expand(q['b']), expand(q['B'])
    else:
        b = sorted(r.randint(0, m - 1) for _ in range(n))
        B = sorted(r.randint(1, m) for _ in range(k))
    bad = b if c['side'] == 'b' else B
    if c['lists'] == 'order':
        i = r.randrange(len(bad) - 1)
        bad[i], bad[i + 1] = max(bad[i], bad[i + 1], 1), min(bad[i], bad[i + 1], m - 1)
        if bad[i] == bad[i + 1]:
            bad[i], bad[i + 1] = m, 0
    if c['lists'] == 'low':
        bad[r.choice([0, r.randrange(len(bad))])] = -1
    if c['lists'] == 'high':
        bad[r.choice([-1, r.randrange(len(bad))])] = m + 1
    lines = [[number_text(x, m) for x in v] for v in (b, B)]
    run = {'prog': prog, 'grid': 1, 'm': m, 'b': runs_of(b), 'B': runs_of(B)}
    f = c['file']
    j = 0 if c['side'] == 'b' else 1
    if f in ('badfield', 'nofield', 'loosefield', 'odd'):
        run['grid'] = 0
        i = r.randrange(len(lines[j]))
        if f == 'badfield':
            lines[j][i] = r.choice(['q', '-', '+', '.', 'e5', '--1', '1e999', '1e-9999', '-.', '"0.5"', "'0.5'", '(0.5', '#1', ';', '_1', 'e', '\u00bd', '\u221e'])
        elif f == 'nofield':
            i = r.randrange(len(lines[j]) + 1)
            lines[j].insert(i, r.choice(['', ' ', '\t']))
            if i == len(lines[j]) - 1:
                lines[j].append('')                                # a last comma may stand alone, two may not
        elif f == 'loosefield':
            lines[j][i] += r.choice([' 0.5', 'q', '.5', '%', '-', 'e', ' ,'[:1] + 'z', ';'])
        else:
            lines[j][i] = r.choice(['nan', 'inf', '-inf', '0x0.8p0', 'NAN', 'infinity', '-nan', 'nan(1)'])
    sep = r.choice([',', ', ', ' , ', ',  '])
    text = [sep.join(x) + (r.choice(['', '', ',']) if x and f != 'nofield' else '') for x in lines]
    text = text[0] + '\n' + text[1] + r.choice(['', '\n', '\n', '\n\n', '\nq,q\n']) if text[1] else text[0] + '\n' + r.choice(['\n', '\n', '\n\n', '\n0.5\n'])
    run['text'] = text
    if f == 'short':
        run['grid'] = 0
        run['text'] = r.choice(['', text.split('\n')[0], text.split('\n')[0] + '\n', '\n', '0.5', '0.5\n'])
    if f == 'none':
        run['grid'] = 0
        run['text'] = None
        run['none'] = r.choice(['missing', 'dir', 'emptyname', 'under', 'loop', 'long', 'dangling', 'mem'])
    run['cmd'] = r.choice(BAD[prog]) if c['cmd'] == 'bad' else c['cmd']
    run['argc'] = c['argc']
    if prog == 'crossprob':
        run['count'] = '10'
    else:
        kind = c['count']
        if kind == 'large' and run['text'] is not None and f != 'short' and c['cmd'] != 'bad' and c['argc'] == 3 and f not in ('badfield', 'nofield'):
            kind = 'good'
        run['count'] = {'good': lambda: str(r.choice([1, 2, 7, 100, 999, 1000, 5000, r.randint(1, 20000)])).rjust(r.choice([1, 1, 1, 7]), '0'),
                        'bad': lambda: r.choice(BAD_COUNTS), 'minus': lambda: r.choice(MINUS), 'loose': lambda: r.choice(LOOSE),
                        'large': lambda: r.choice(LARGE)}[kind]()
    return run


def arguments(run, path):
    a = [run['cmd'], path] + ([run['count']] if run['prog'] == 'crossprob_mc' else [])
    a += ['0.5', '1', path]
    return a[:run['argc']]


def place(files, run, r):
    """The path of the file of a run."""
    if run['text'] is not None:
        name = r.choice([None, None, None, 'b %d.txt', 'no-extension%d', '-%d', '\u00fcber %d', 'a,b;c%d', '%d' + 'y' * 150])
        return files.new(run['text'].encode('utf-8'), name % (files.n + 1) if name else None)
    d = files.dir
    loop, dang = os.path.join(d, 'loop'), os.path.join(d, 'dangling')
    with files.lock:
        if not os.path.islink(loop):
            os.symlink('loop', loop)
            os.symlink('nowhere', dang)
    f = files.new('0\n1\n')
    return {'missing': os.path.join(d, 'no such file'), 'dir': d, 'emptyname': '', 'under': f + '/x', 'loop': loop,
            'long': os.path.join(d, 'z' * 300), 'dangling': dang, 'mem': '/proc/self/mem'}[run['none']]


def observe(status, out):
    line = last_line(out)
    is_number = bool(SHOWN.fullmatch(line))
    if status == 'hang':
        return {'k': 'hang'}
    if not isinstance(status, int):
        return {'k': 'garbage'}
    if status < 0 or status > 125:
        return {'k': 'crash', 'why': '%s: %s' % (status, out[-300:])}
    if status == 0:
        return dict(decimal(line), show=line) if is_number else {'k': 'noresult', 'why': out[-200:]}
    if is_number:
        return {'k': 'result and error status', 'why': '%d: %s' % (status, line)}
    if not out.strip():
        return {'k': 'no message', 'why': str(status)}
    return {'k': 'error', 'why': '%d: %s' % (status, line[:100])}


LIBRARY = {'ecdf1-mns2016': ('mns_b', 'mns_B'), 'ecdf1-new': ('new_b', 'new_B'), 'ecdf2-ks2001': ('ks',), 'ecdf2-mn2017': ('fft',)}


def library_values(events):
    """Adds what the library functions return to the events of crossprob that printed a value."""
    todo = []
    for e in events:
        if e['prog'] == 'crossprob' and e['grid'] and e['out']['k'] == 'value' and e['cmd'] in LIBRARY and (e['b'] or e['B']):
            ops, n, m = LIBRARY[e['cmd']], sum(c for c, _ in e['b'] or e['B']), e['m']
            q = {'m': m, 'b': e['b'], 'B': e['B']}
            if len(ops) == 1:
                q = {'m': m, 'b': e['b'] or [[n, 0]], 'B': e['B'] or [[n, m]]}
                op = ops[0]
            else:
                op = ops[1 if e['B'] else 0]
            todo.append((e, q, op))
    for (e, q, op), x in zip(todo, api.ask_all([(q, (op,)) for _, q, op in todo])):
        e['lib'] = x['a'][0]['out']
    return events


def perform(runs, seed=0, variant='std'):
    exes = {p: os.path.join(programs(variant), 'bin', p) for p in NAMES}
    fake_clock()
    r = gen.rng_for(seed, 'names')
    with Files() as files:
        paths = [place(files, x, r) for x in runs]
        rel = [r.random() < 0.2 for _ in runs]
        env = {'ASAN_OPTIONS': 'detect_leaks=0', 'UBSAN_OPTIONS': 'print_stacktrace=0'} if variant == 'asan' else {}

        def one(i):
            x, p = runs[i], paths[i]
            cwd, pipe = None, ()
            if x['text'] is not None and rel[i]:
                p, cwd = os.path.basename(p), files.dir
            elif x['text'] is not None and i % 11 == 3:
                os.symlink(p, p + '.link')
                p += '.link'
            elif x['text'] is not None and i % 11 == 7 and len(x['text']) < 15000:     # as a shell's <(...)
                pipe = os.pipe()
                os.write(pipe[1], x['text'].encode('utf-8'))
                os.close(pipe[1])
                p = '/proc/self/fd/%d' % pipe[0]
            e = clean_env(**env)
            if variant != 'asan':
                e.update(LD_PRELOAD=fake_clock(), FAKE_TIME=str(1700000000 + i))
            try:
                pr = run_limited([exes[x['prog']]] + arguments(x, p), cpu=2 * LONG if 'brief' in x else 150 if len(x['count']) > 8 else None, env=e, timeout=x.get('brief', LONG if len(x['count']) > 8 else 100), cwd=cwd, stdin=subprocess.DEVNULL, pass_fds=pipe[:1],
                                    stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                st, so, se = pr.returncode, pr.stdout.decode('utf-8', 'replace'), pr.stderr.decode('utf-8', 'replace')
                o = observe(st, so)
                if o['k'] == 'no message' and se.strip():
                    o['k'] = 'error'
                if o['k'] == 'crash':
                    o['why'] += se[-1500:]
            except subprocess.TimeoutExpired:
                o = {'k': 'running' if 'brief' in x else 'hang'}
            finally:
                if pipe:
                    os.close(pipe[0])
            ev = {k: x[k] for k in ('prog', 'argc', 'cmd', 'grid', 'm', 'b', 'B')}
            ev['count'] = list(x['count'].encode('utf-8'))
            if x['text'] is None:
                ev['file'] = {'t': 'none'}
            else:
                t = x['text'].encode('utf-8').decode('latin-1')
                ev['file'] = {'t': 'odd' if odd(t) else 'text', 'text': codes(t)}
                if ev['file']['t'] == 'odd':
                    ev['grid'] = 0
            ev['out'] = o
            return ev
        order = sorted(range(len(runs)), key=lambda i: (-len(runs[i]['count']), -len(runs[i]['text'] or '')))
        res = dict(zip(order, pmap(one, order)))
    return library_values([res[i] for i in range(len(runs))])


def describe(x, e):
    return '%s with %d arguments: %r %s%s -> %s %s' % (
        x['prog'], x['argc'], x['cmd'][:60], repr(x['text'][:200]) if x['text'] is not None else x['none'],
        ' %r' % x['count'][:40] if x['prog'] == 'crossprob_mc' else '', e['out']['k'], e['out'].get('show', e['out'].get('why', ''))[:300] + (' (library: %s)' % e['lib'].get('show') if 'lib' in e else ''))


def larger(prog, r, T):
    """Valid runs with longer lists, of every shape."""
    out = []
    f = 4 if T else 1
    def add(cmd, x, count='20000', one=False, **more):
        m = x['m']
        if one:                           # only the line that bounds anything
            x = dict(x, **({'B': []} if x['B'][0][1] == m else {'b': []}))
        tb, tB = spell_list(r, expand(x['b']), m), spell_list(r, expand(x['B']), m)
        out.append(dict({'prog': prog, 'cmd': cmd, 'argc': 2 if prog == 'crossprob' else 3, 'count': count, 'grid': 1, 'm': m,
                    'b': x['b'], 'B': x['B'], 'text': tb + '\n' + tB + r.choice(['\n', '\n', '\nrest\n'] + ([''] if tB else []))}, **more))
    if prog == 'crossprob':
        for n in [1, 2, 3, 5, 8, 12, 20, 33, 64, 100, 150, 260] * 2 * f:
            for cmd in ALGS[2:]:
                x = gen.corridor(r, n)
                add(cmd, x)
                add(cmd, dict(x, b=[]))
                add(cmd, dict(x, B=[]))
            for cmd in ALGS[:2]:
                x = gen.one_sided(r, n)
                add(cmd, x)
                add(cmd, gen.as_lower(x))
        for n in [600, 1200, 1900] * f + [2500, 4000, 6000] * f:           # long lines
            for cmd in ALGS[1 if n > 2000 else 0:]:
                if n <= 4000 or cmd != 'ecdf2-ks2001':
                    add(cmd, gen.one_level(r, n, kind=r.choice('bB')) if cmd in ALGS[:2] else gen.one_level(r, n), one=cmd in ALGS[:2])
        for _ in range(60 * f):                       # small probabilities
            x = gen.tiny_pair(r)
            for cmd in ALGS[2:]:
                add(cmd, x)
            x = gen.q(100, [[r.randint(1, 30), r.randint(30, 90)], [r.randint(1, 30), r.randint(90, 99)]], [])
            for cmd in ALGS:
                add(cmd, x)
        for _ in range(300 * f):
            x = gen.small_pair(r, 8)
            for cmd in ALGS[2:]:
                add(cmd, x)
            s = gen.random_single(r, 8)
            for cmd in ALGS[:2]:
                add(cmd, s)
                add(cmd, gen.as_lower(s))
    else:
        for cmd in NAMES[prog]:
            for _ in range(150 * f):
                m = r.choice([4, 10, 32])
                n, k = r.randint(0, 8), r.randint(0, 8)
                b, B = montecarlo.unequal(r, max(n, k, 1), m, n, k)
                add(cmd, {'m': m, 'b': b, 'B': B}, str(r.choice([100, 1000, 3333, 20000, 50000])))
            for _ in range(100 * f):
                x = gen.small_pair(r, 6)
                add(cmd, x, str(r.choice([1, 10, 1000, 20000])))
            # more simulations than a 32-bit number counts; all of them cross, or all do not
            add(cmd, {'m': 4, 'b': [], 'B': [[1, 0]]}, str(2 ** 31 + r.randint(1, 10 ** 7)), brief=LONG)
            # and more than can be done: they are seen to go on, or give an estimate of this many
            for count in [2 ** 32 + r.randint(1, 2000), 2 ** r.randint(33, 62) + r.randint(1, 2000)] * (4 if T else 1):
                add(cmd, gen.small_pair(r, 4), str(count), brief=4)
                add(cmd, {'m': 7, 'b': [[1, 1], [1, 2]], 'B': [[1, 4], [1, 6]]}, str(count), brief=4)
            if T:
                add(cmd, {'m': 4, 'b': [], 'B': []}, str(2 ** 32 + r.randint(1, 10 ** 7)), brief=LONG)
                add(cmd, {'m': 8, 'b': [], 'B': [[1, 3]]}, str(2 ** 31 - 1))
    return out


def check(pid, ev):
    prog = 'crossprob' if pid == 'C10' else 'crossprob_mc'
    r = gen.rng_for(SEED, pid)
    cases = [c for c in case_list(THOROUGH, ev) if c['prog'] == prog]
    r.shuffle(cases)
    cases = cases * 3 if THOROUGH else cases
    runs = [spell(r, c) for c in cases] + larger(prog, r, THOROUGH)
    sub = [x for x in runs if len(x['text'] or '') < 2000]
    r.shuffle(sub)
    sub = sub[:1500 if THOROUGH else 300]
    if prog == 'crossprob_mc':
        sub = [x for x in sub if len(x['count']) < 6]
    both = [(runs, 'std'), (sub, 'asan')]
    bad = []
    for rs, variant in both:
        es = perform(rs, pid, variant)
        for x, e in list(zip(rs, es))[::max(1, len(es) // 6)]:
            ev.samples.append(describe(x, e))
        for e in es:
            key = '%s %s' % (variant, e['out']['k'])
            ev.extra.setdefault('outcomes', {})[key] = ev.extra.setdefault('outcomes', {}).get(key, 0) + 1
        rejected = sorted({s - 1 for s, *_ in check_traces('CliTrace', [{'ev': [e]} for e in es], ev)})
        if rejected:
            again = [rs[i] for i in sorted(rejected, key=lambda i: len(rs[i]['text'] or ''))[:20]]
            es2 = perform(again, pid, variant)
            bad += stands([{'run': rs[i], 'event': es[i], 'text': describe(rs[i], es[i])} for i in rejected],
                          [{'run': again[s - 1], 'event': es2[s - 1], 'text': describe(again[s - 1], es2[s - 1])}
                           for s, *_ in check_traces('CliTrace', [{'ev': [e]} for e in es2])])
    return bad
