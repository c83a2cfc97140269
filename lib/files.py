"""C09: a boundary file is read as the two lists it spells (spec/BoundaryFile, spec/FileTrace)."""
import math
import gen, montecarlo
from vc import *

TOKENS = ['0', '1', '.5', '-', ',', ' ', '\n', 'e2', 'z']
MORE = ['0.25', '1', '0', '.5', '7.', '1e-3', '2E+1', '-0.5', '+1', '0.1', '12345678901234567890', '1e400', '1e-400', '3e-310',
        ',', ',', ',', ', ', ' ,', '\n', '\n', ' ', '\t', '\r', '\r\n', 'e', '.', '-', 'abc', 'inf', 'nan', '0x1', '#', ';', '1.5.2', '1 2', '--1', '0.3;']


def enumerate_texts(k, length, ev):
    d = tempfile.mkdtemp(prefix='texts.', dir=os.path.join(BUILD, 'traces'))
    try:
        tlc('Texts', env={'OUT': d, 'TOKENS': str(k), 'LENGTH': str(length)})
        out = [json.loads(l)['x'] for f in sorted(os.listdir(d)) for l in open(os.path.join(d, f))]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev.models.append('Texts: %d texts of up to %d tokens' % (len(out), length))
    return out


def spelled(r, x):
    """A spelling of a number near x."""
    k = r.random()
    if k < 0.3:
        return repr(x)
    if k < 0.5:
        return '%.*f' % (r.randint(0, 25), x)
    if k < 0.7:
        return '%.*e' % (r.randint(0, 25), x)
    if k < 0.8:
        return ('%.12g' % x)
    if k < 0.9:                                    # exactly between two doubles, or just beside
        a, e = math.frexp(x if x > 1e-300 else 0.3)
        from fractions import Fraction
        f = Fraction(a) + Fraction(1, 2 ** 54)
        f = f * Fraction(2) ** e
        s = ('%d' % (f * 10 ** 60)).rjust(61, '0')
        return s[:-60] + '.' + s[-60:] + r.choice(['', '0', '1', '000000000000000001'])
    return ''.join(r.choice('0123456789') for _ in range(r.randint(1, 40))) + r.choice(['', '.', '.' + ''.join(r.choice('0123456789') for _ in range(r.randint(0, 40)))]) \
        + r.choice(['', '', 'e%d' % r.randint(-330, 310), 'E+%d' % r.randint(0, 300), 'e-%d' % r.randint(0, 320)])


def good_line(r, n, tidy=False):
    v = sorted(r.random() for _ in range(n))
    out = []
    for x in v:
        out.append(('' if tidy else r.choice(['', '', ' ', '  ', '\t'])) + (repr(x) if tidy else spelled(r, x)) + ('' if tidy else r.choice(['', '', '', ' ', '\t '])))
    return ','.join(out) + ('' if tidy or not n else r.choice(['', '', ',']))


def texts(r, T, ev):
    out = [''.join(TOKENS[i - 1] for i in x) for x in enumerate_texts(len(TOKENS), 5 if T else 4, ev)]
    # two lines around every enumerated line of tokens
    lines = [x for x in enumerate_texts(len(TOKENS), 3, ev)]
    for x in lines:
        t = ''.join(TOKENS[i - 1] for i in x)
        out.append('0.25,0.5\n' + t)
        out.append(t + '\n1,1,1\n')
    f = 6 if T else 1
    for _ in range(3000 * f):
        out.append(''.join(r.choice(MORE) for _ in range(r.randint(3, 14))))
    for _ in range(1500 * f):
        n, k = r.choice([0, 1, 2, 3, 5, 8]), r.choice([0, 1, 2, 3, 5, 8])
        t = good_line(r, n) + '\n' + good_line(r, k) + r.choice(['', '\n', '\n', '\n\n', '\nabc', '\n0.1,0.2', '\n0.3\n0.4\nxyz\n'])
        if r.random() < 0.3:                        # damage it a little
            p = r.randrange(len(t) + 1)
            c = r.choice(['', ',', ' ', '\n', '-', '.', 'e', 'q', '0', '+', '\t', '5'])
            t = t[:p] + c + t[p + (r.random() < 0.5):]
        out.append(t)
    for n, k in [(100, 100), (1000, 1000), (3000, 0), (0, 3000), (127, 1), (255, 256), (1, 2000)] * (2 if T else 1):
        out.append(good_line(r, n, r.random() < 0.5) + '\n' + good_line(r, k, r.random() < 0.5) + r.choice(['', '\n', '\nmore\n']))
    for n, k in [(4000, 10), (10, 8000), (16000, 0)] + ([(60000, 60000), (0, 200000)] if T else []):
        out.append(good_line(r, n, True) + '\n' + good_line(r, k, True) + '\n')
    for n, k in [(40000, 0), (3, 70000)]:           # short fields
        out.append(','.join(['0.5'] * n) + '\n' + ','.join(['0.25'] * (k // 2) + [' 1'] * (k - k // 2)))
    for width in (255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 131072):
        for d in (-1, 0, 1, 2):                     # lines of just this length, and fields across that place
            w = width + d
            line = ','.join(['0.5'] * (w // 4))
            line += ' ' * (w - len(line))
            out.append(line + '\n0.125,0.875\n')
            if width <= 8192 or T:
                out.append('0.125\n' + '0' * (w - 8) + '.3759765\n')
                out.append(' ' * (w - 4) + '0.1234567890123456,0.75\n0.5')
    # every byte, and what other programs write around numbers, at every place
    strange = [chr(i) for i in range(256)] + ['\xef\xbb\xbf', '\xff\xfe', '\xc2\xa0', '\xe2\x80\x89', '\xe2\x88\x92', '\xef\xbc\x8c', '//', '/*', '# ', '#0.5', '--', '"', "'", '[', ']',
        '(', ')', '{', '}', '()', 'b=', 'b:', 'b_i = ', '$', '%', '\\n', '\\', '&', '|', '1/', '1:', '@', '_', '*', '1e', 'e', 'E', 'd0', 'f', 'L', 'u', '.', '..', ',,', ', ,', ';', '\r', '\n\r',
        '\0', '\x1a', '\x04', '\v', '\f', '\t', '\b', '~', '^']
    for x in strange:
        for t in ('%s0.1,0.2\n0.7,0.9\n', '0.1,0.2\n%s0.7,0.9\n', '0.1,%s0.2\n0.7,0.9\n', '0.1%s,0.2\n0.7,0.9\n', '0.1,0.2%s\n0.7,0.9\n', '0.1,0.2\n0.7,0.9%s\n', '0.1,0.2\n0.7,0.9%s',
                  '0.1,%s,0.2\n0.7,0.9\n', '%s\n0.7\n', '0.7\n%s\n', '0.7\n%s', '0.1,0.2,%s\n0.7,0.9\n', '0.1,0.2\n0.7,0.9\n%s'):
            out.append(t.replace('%s', x))
    for n in (400, 1000):                           # a defect deep inside
        a = good_line(r, n, True).split(',')
        for bad in ('', 'q', ' ', '1e999', '-', '1e-5000'):
            i = r.randrange(n)
            out.append(','.join(a[:i] + [bad] + a[i + 1:]) + '\n' + ','.join(a))
            out.append(','.join(a) + '\n' + ','.join(a[:i] + [bad] + a[i + 1:]) + '\n')
    out.append('0.' + '1' * 1200 + '\n' + '0' * 1500 + '.5\n')
    out.append('0.5\n0.75\n' + '0.1,' * 20000 + '\n')
    for x in ('1e308', '1.7976931348623157e308', '1.7976931348623159e308', '2e308', '1e309', '2.2250738585072014e-308',
              '2.2250738585072011e-308', '5e-324', '2e-324', '1e-323', '0e99999', '0e-99999', '-0', '-1e-400', '0.0000e+0000', '1e0000000000000000001',
              '9007199254740993', '9007199254740992.9999999999', '0.1e-0000000000000000000000002'):
        out.append(x + '\n' + x + ',' + x)
    return out


def odd(t):
    """Letters that start or continue numbers of other kinds (inf, nan, 0x..): nothing is promised about them but an end."""
    return bool(set('xXiInNpP') & set('\n'.join(t.split('\n')[:2])))


def codes(t):
    return list(t.encode('latin-1'))


def double(tok):
    x = float.fromhex(tok)
    if math.isinf(x) or math.isnan(x):
        return None
    a, e = math.frexp(abs(x))
    e -= 53
    if e < -1074:
        a, e = math.ldexp(a, e + 53 + 1074), -1074
        man = int(a)
    else:
        man = int(math.ldexp(a, 53))
    return {'neg': 1 if math.copysign(1, x) < 0 else 0, 'man': limbs(man), 'exp': e}


def reply(rep):
    if isinstance(rep, tuple):
        return {'k': rep[0], 'why': rep[1][-300:]}
    if not rep.startswith('V'):
        return {'k': 'error' if rep[:1] == 'E' else 'exception', 'why': rep[:200]}
    w = rep.split()[1:]
    nb = int(w[0])
    out = [list(map(double, w[1:nb + 1])), list(map(double, w[nb + 2:]))]
    if any(v is None for x in out for v in x):
        return {'k': 'nan', 'why': rep[:300]}
    return {'k': 'lists', 'b': out[0], 'B': out[1], 'show': rep[2:300]}


def play(exe, env, items):
    """items: texts, or ('none', path)"""
    out = []
    with montecarlo.Files() as files:
        scratch = os.path.join(files.dir, 'scratch.txt')
        d = Driver([exe, scratch], env=env)
        try:
            for t in items:
                if isinstance(t, tuple):
                    p = {'missing': os.path.join(files.dir, 'no such file'), 'dir': files.dir, 'empty': '',
                         'under': os.path.join(scratch, 'x')}[t[1]]
                    out.append({'t': 'none', 'what': t[1], 'out': reply(d.ask('path ' + p))})
                else:
                    out.append({'t': 'odd' if odd(t) else 'text', 'text': codes(t), 'out': reply(d.ask('text ' + t.encode('latin-1').hex()))})
                if out[-1]['out']['k'] in ('crash', 'hang'):
                    break
        finally:
            d.close()
    return {'ev': out}


def describe(e):
    if e['t'] == 'none':
        return 'reading %s -> %s' % (e['what'], e['out']['k'])
    return '%r -> %s %s' % (bytes(e['text']).decode('latin-1')[:200], e['out']['k'], e['out'].get('show', e['out'].get('why', ''))[:200])


def check(pid, ev):
    if harness('file_driver', optional=True) is None:
        log('note: the reader could not be driven directly; checking it through the programs')
        import cli
        return cli.check('C10', ev)
    r = gen.rng_for(SEED, pid)
    ts = texts(r, THOROUGH, ev)
    r.shuffle(ts)
    items = [('none', 'missing'), ('none', 'dir'), ('none', 'empty'), ('none', 'under')]
    groups = [('std', ts[i:i + 150] + items) for i in range(0, len(ts), 150)]
    groups += [('asan', [t for t in ts if len(t) < 400][k * 300:(k + 1) * 300]) for k in range(8 if THOROUGH else 4)]
    exes = {v: harness('file_driver', v) for v in ('std', 'asan')}
    envs = {'std': {}, 'asan': {'ASAN_OPTIONS': 'detect_leaks=0'}}
    res = pmap(lambda g: play(exes[g[0]], envs[g[0]], g[1]), groups)
    ks = {}
    for x in res:
        for e in x['ev']:
            ks[e['out']['k']] = ks.get(e['out']['k'], 0) + 1
    ev.extra['files_read'] = ks
    for e in res[0]['ev'][:8]:
        ev.samples.append(describe(e))
    bad = check_traces('FileTrace', res, ev)
    if not bad:
        return []
    groups2 = [(groups[s - 1][0], groups[s - 1][1][:l]) for s, l in bad[:10]]
    again = pmap(lambda g: play(exes[g[0]], envs[g[0]], g[1]), groups2)
    def report(xs, rejected):
        return [{'files_before': l - 1, 'event': xs[s - 1]['ev'][l - 1], 'text': describe(xs[s - 1]['ev'][l - 1])} for s, l in rejected]
    return stands(report(res, bad), report(again, check_traces('FileTrace', again)))
