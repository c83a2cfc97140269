"""C19: the work of the algorithms grows as documented (spec/Cost, spec/CostTrace)."""
import math
import gen, api
from vc import *

CACHEGRIND = ['valgrind', '--tool=cachegrind', '--cache-sim=no', '--cachegrind-out-file=/dev/null']


# So many instructions at least are counted in that time.
CPU_SECONDS, AT_LEAST = (300, 18 * 10 ** 9) if THOROUGH else (90, 4 * 10 ** 9)


def limit():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_SECONDS, CPU_SECONDS + 5))


def count(exe, questions, timeout=800):
    """(instructions, outcomes) of one process that is asked these questions; None for the first if it takes too long."""
    text = ''.join('q %s %s %s\n' % (op, hexlist(b), hexlist(B)) for op, b, B in questions)
    try:
        p = run(CACHEGRIND + [exe], input=text, stderr=subprocess.PIPE, env=clean_env(), timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return None, []
    m = re.search(r'I\s+refs:\s+([\d,]+)', p.stderr)
    if not m and p.returncode in (-24, -9, 152, 137):
        return AT_LEAST, [{'k': 'value'}]
    if not m:
        return 0, [{'k': 'crash', 'why': 'exit status %d %s' % (p.returncode, p.stderr[-300:])}]
    return int(m.group(1).replace(',', '')), [outcome(x) for x in p.stdout.split('\n')[:-1]]


def question(r, family, n):
    """The lists of one question."""
    e = 2.0 ** -20
    lin = [i / n for i in range(n + 1)]
    if family == 'all':                     # nothing is excluded, all boundaries distinct: the widest windows
        return [e * x for x in lin[:n]], [1 - e + e * x for x in lin[1:]]
    if family == 'corridor':
        w = 1.5 / math.sqrt(n)
        return [max(0.0, x - w) for x in lin[:n]], [min(1.0, x + w) for x in lin[1:]]
    if family == 'lower':
        w = 0.6 / math.sqrt(n)
        return [max(0.0, x - w) for x in lin[:n]], [1.0] * n
    if family == 'upper':
        w = 0.6 / math.sqrt(n)
        return [0.0] * n, [min(1.0, x + w) for x in lin[1:]]
    if family == 'random':
        v = sorted(r.random() for _ in range(2 * n))
        return sorted(x * 0.5 for x in v[:n]), sorted(min(1.0, 0.5 + x) for x in v[n:])
    if family == 'steps':                   # many ties, also between the lists
        k = max(1, int(math.sqrt(n)))
        return [(i // k * k) / (2 * n) for i in range(n)], [0.5 + (i // k * k + k) / (2 * (n + k)) for i in range(n)]
    if family == 'late':                    # all within a sliver: the one-sided algorithms expect few points between them
        return [1 - e + e * x for x in lin[:n]], [e + e * x for x in lin[1:]]
    return [0.0] * n, [1.0] * n             # nothing


def sessions():
    T = THOROUGH
    sizes = {'ks': [100, 200, 400, 800] + ([1600] if T else []),
             'fft': [250, 500, 1000, 2000] + ([4000, 8000] if T else []),
             'new': [250, 1000, 2000, 4000] + ([8000, 16000] if T else []),
             'mns': [250, 500, 1000, 2000]}
    out = []
    for op in ('ks', 'fft'):
        for f in ('all', 'corridor', 'lower', 'upper', 'random', 'steps', 'none'):
            out.append((op, f, sizes[op] + ([4000] if op == 'fft' and f == 'lower' and not T else [])))
    for op in ('new_b', 'mns_b', 'new_B', 'mns_B'):
        for f in (('lower', 'all', 'steps', 'late', 'none') if op.endswith('b') else ('upper', 'all', 'steps', 'late', 'none')):
            out.append((op, f, sizes[op[:3]]))
    return out


def measure(job):
    op, family, sizes = job
    exe = harness('api_driver', 'plain')
    r = gen.rng_for(SEED, 'cost', family)
    ev = []
    idle, _ = count(exe, [])
    ev.append({'t': 'idle', 'work': limbs(idle)})
    for n in sizes:
        b, B = question(r, family, n)
        if op in api.LOWER:
            B = []
        if op in api.UPPER:
            b = []
        w, outs = count(exe, [(op, b, B)])
        if w is None:                       # very many instructions, or a busy machine: not to be told apart
            log('note: %s %s n=%d was not finished' % (op, family, n))
            break
        ev.append({'t': 'run', 'n': n, 'work': limbs(w), 'out': outs[0]['k'] if outs else 'none', 'instructions': w})
        if w >= AT_LEAST:
            break
    return {'alg': op, 'family': family, 'wide': 0 if family in ('corridor', 'steps') else 1, 'ev': ev}


def describe(x, l):
    return '%s (%s) %s' % (x['alg'], x['family'], ', '.join('n=%d: %d instructions' % (e['n'], e['instructions']) for e in x['ev'][1:l]))


def check(pid, ev):
    model_check('CostMC', ev=ev)
    js = sessions()
    harness('api_driver', 'plain')
    res = pmap(measure, js)
    for x in res:
        if len(x['ev']) < 2:
            raise CheckError('too few measurements: ' + describe(x, len(x['ev'])))
        ev.samples.append(describe(x, len(x['ev'])))
    ev.extra['instructions'] = sum(e.get('instructions', 0) for x in res for e in x['ev'])
    bad = check_traces('CostTrace', res, ev)
    return [{'session': res[s - 1], 'text': describe(res[s - 1], l)} for s, l in bad]
