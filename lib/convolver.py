"""C17: every history of requests to convolver objects gives linear convolutions (spec/ConvAlg, spec/ConvTrace)."""
import math
import gen, api
from vc import *


def number_list(r, n, kind):
    if kind == 'dense':
        return [r.randint(-20, 20) for _ in range(n)]
    if kind == 'positive':
        return [r.randint(0, 20) for _ in range(n)]
    if kind == 'ones':
        return [1] * n
    if kind == 'first':
        return [7] + [0] * (n - 1)
    if kind == 'last':
        return [0] * (n - 1) + [-3]
    if kind == 'zero':
        return [0] * n
    v = [0] * n                                # sparse
    for _ in range(4):
        v[r.randrange(n)] = r.randint(-20, 20)
    v[-1] = r.choice([v[-1], 5])
    return v


def looked_at(r, a):
    n = len(a)
    if n > 200 and sum(1 for x in a if x) > 8:   # dense times dense: some of the outputs
        return sorted({0, 1, n - 1, n - 2, n // 2, 127, 128} & set(range(n)) | {r.randrange(n) for _ in range(6)})
    if n > 3500:
        return sorted({0, 1, n - 1, n - 2, n // 2} | {r.randrange(n) for _ in range(300)})
    return []


def request(r, obj, M, size):
    n = max(size, 0) if size <= M else min(size, M + 3)
    n = max(n, size if size > 0 else 0)
    kinds = ['dense', 'sparse', 'sparse', 'positive', 'ones', 'first', 'last', 'zero']
    ka, kb = r.choice(kinds), r.choice(kinds)
    if n > 200 and ka in ('dense', 'positive', 'ones') and kb in ('dense', 'positive', 'ones') and r.random() < 0.6:
        ka = 'sparse'
    a = number_list(r, n, ka) if n else []
    b = number_list(r, n, kb) if n else []
    at = looked_at(r, a)
    sa, sb = (0, 0) if r.random() < 0.6 else (r.randint(-150, 150), r.randint(-150, 150))
    return {'t': 'conv', 'obj': obj, 'size': size, 'A': a, 'b': b, 'at': at, 'sa': sa, 'sb': sb,
            'off': [r.randint(0, 3) for _ in range(3)], 'mode': 1 if r.random() < 0.3 else 0}


def similar(r, e):
    """The request once more, from the same memory, with some numbers changed, the lists exchanged, or one list twice."""
    e = dict(e, A=list(e['A']), b=list(e['b']), mode=1)
    if not e['A']:
        return e
    k = r.random()
    if k < 0.15:
        e['A'], e['b'] = e['b'], e['A']
    elif k < 0.25:
        e['b'] = list(e['A'])
        e['sb'] = e['sa']
        e['mode'] = 3
    elif k < 0.9:
        for v in r.choice([('A',), ('b',), ('A', 'b')]):
            for _ in range(r.randint(1, 2)):
                e[v][r.choice([0, -1, r.randrange(len(e[v])), r.randrange(len(e[v]))])] += r.choice([-5, -1, 1, 7])
    return e


def plan(r, sizes, length, M=None, again=0):
    """A history: objects are made and deleted in between."""
    ev, objs, nxt = [], {}, 0
    while len(ev) < length:
        if not objs or (r.random() < 0.06 and len(objs) < 3):
            m = M if M and not objs else r.choice(sizes) + r.choice([0, 0, 1, 3, 50])
            objs[nxt] = m
            ev.append({'t': 'new', 'obj': nxt, 'M': m})
            nxt += 1
            continue
        o = r.choice(list(objs))
        if r.random() < 0.03:
            del objs[o]
            ev.append({'t': 'del', 'obj': o})
            continue
        k = r.random()
        m = objs[o]
        if k < 0.08:
            size = r.choice([0, -1, -5, -2 ** 31])
        elif k < 0.2:
            size = m + r.choice([1, 2, 100])
        elif k < 0.35:
            size = m
        elif k < 0.5:
            size = r.randint(1, m) if m else 0
        else:
            size = r.choice(sizes)
        ev.append(request(r, o, m, size))
        while r.random() < again:
            e = similar(r, ev[-1])
            e['at'] = looked_at(r, e['A'])
            if r.random() < 0.3:
                e['obj'] = r.choice([x for x in objs if objs[x] >= e['size']] or [o])
            ev.append(e)
    return ev


def command(e):
    va = [math.ldexp(x, e['sa']) for x in e['A']]
    vb = [math.ldexp(x, e['sb']) for x in e['b']]
    return 'conv %d %d %d %d %d %d %d %s %s' % (e['obj'], e['size'], len(va), *e['off'], e['mode'],
                                                ' '.join(x.hex() for x in map(float, va)), ' '.join(x.hex() for x in map(float, vb)))


def recorded(e, rep):
    """The request e with its outcome."""
    if isinstance(rep, tuple):
        e['out'] = {'k': rep[0], 'why': rep[1][-300:]}
    elif rep.startswith('V'):
        ys = [math.ldexp(float.fromhex(x), -e['sa'] - e['sb']) for x in rep.split()[1:]]
        if any(not math.isfinite(y) or abs(y) > 1e9 for y in ys):
            e['out'] = {'k': 'nan'}
        else:
            near = [round(y) for y in ys]
            far = max([abs(y - k) for y, k in zip(ys, near)], default=0)
            e['out'] = {'k': 'value', 'y': near, 'far': math.ceil(far * 1e9)}
    else:
        e['out'] = {'k': {'E': 'error', 'O': 'overrun', 'M': 'mutated'}.get(rep[:1], 'exception'), 'why': rep[:200]}
    e['a'] = [[i, x] for i, x in enumerate(e.pop('A')) if x]
    if e['out']['k'] == 'error':
        e['a'] = e['b'] = []
    return e


def play(exe, env, events):
    """Runs a history in a process of its own."""
    d = Driver([exe], env=env)
    out = []
    try:
        for e in events:
            e = dict(e)
            if e['t'] == 'new':
                rep = d.ask('new %d %d' % (e['obj'], e['M']))
            elif e['t'] == 'del':
                rep = d.ask('del %d' % e['obj'])
            elif e['t'] == 'turns':
                rep = d.ask('\n'.join(['turns %d %d' % (e['turns'], len(e['asked']))] + [command(q) for q in e['asked']]))
                if isinstance(rep, tuple):
                    out.append(dict(recorded(dict(e['asked'][0]), rep)))
                    break
                answers = [x.split('\1') for x in rep.split('\2')[1:]]
                if len(answers) != len(e['asked']):
                    raise CheckError('conv_driver: ' + rep[:300])
                out += [recorded(dict(q), a) for q, qs in zip(e['asked'], answers) for a in qs]
                continue
            else:
                rep = d.ask(command(e))
            if e['t'] == 'conv':
                recorded(e, rep)
            elif isinstance(rep, tuple):
                e['out'] = {'k': rep[0], 'why': rep[1][-300:]}
            elif rep == 'ok':
                e['out'] = {'k': 'ok'}
            else:
                e['out'] = {'k': 'exception', 'why': rep[:200]}
            out.append(e)
            if e['out']['k'] in ('crash', 'hang'):
                break
    finally:
        d.close()
    return out


def describe(e):
    if e['t'] != 'conv':
        return '%s %s -> %s' % (e['t'], e.get('M', ''), e['out'])
    y = e['out'].get('y')
    return 'conv size=%d a=%s b=%s -> %s %s' % (e['size'], str(e['a'])[:120], str(e['b'])[:120], e['out']['k'],
                                               (str(y)[:120] + ' off by %s e-9' % e['out']['far']) if y is not None else e['out'].get('why', ''))


def histories(r, T):
    hs = []
    edge = [1, 2, 3, 126, 127, 128, 129, 130, 200, 500, 1000, 1022, 1023, 1024, 1025, 1026, 1500]
    for k in range(30 if T else 10):
        hs.append(('std', plan(r, edge, 40)))
    for k in range(24 if T else 8):
        hs.append(('std', plan(r, list(range(1, 40)), 60)))
    for k in range(24 if T else 10):
        hs.append(('std', plan(r, edge, 40, again=0.7)))
    # every size up to and around the switch to the transform
    sizes = list(range(1, 140))
    for k in range(4):
        hs.append(('std', [{'t': 'new', 'obj': 0, 'M': 140}] + [request(r, 0, 140, s) for s in r.sample(sizes, len(sizes))]))
    big = [2047, 2048, 2049, 3071, 3072, 3073]
    for k in range(10 if T else 4):
        hs.append(('std', plan(r, edge + big, 12, M=r.choice(big))))
    for m in [4096, 4097, 5121, 6145, 8192, 8193, 10241, 16000] + ([32768, 40000, 65537] if T else []):
        hs.append(('std', [{'t': 'new', 'obj': 0, 'M': m}] + [request(r, 0, m, s) for s in (m, r.randint(2000, m), m - 1, 2 * m, m // 2, m)]))
    for m in range(0, 6):
        hs.append(('std', [{'t': 'new', 'obj': 0, 'M': m}] + [request(r, 0, m, s) for s in range(-2, 9)]))
    # every pair of transform lengths in succession, up and down
    lens = [100, 1000, 1024, 1025, 2048, 2049, 3000]
    pairs = [x for a in lens for b in lens for x in (a, b)]
    for k in range(0, len(pairs), 14):
        hs.append(('std', [{'t': 'new', 'obj': 0, 'M': 3000}] + [request(r, 0, 3000, s) for s in pairs[k:k + 14]]))
    # many requests to one object, a few in turn
    for k in range(8 if T else 4):
        asked = [request(r, 0, 1100, s) for s in r.sample(range(1, 9), 4) + [r.choice([128, 130]), 1101, 0] + ([1030] if k == 1 else [])]
        asked[-1]['mode'] = 0
        hs.append(('std', [{'t': 'new', 'obj': 0, 'M': 1100}, {'t': 'turns', 'turns': 9500, 'asked': asked}]))
    for k in range(16 if T else 6):
        hs.append(('asan', plan(r, edge + [2048, 2049], 30)))
    for m in (0, 1, 127, 128, 1023, 1024, 1025, 2048):
        hs.append(('asan', [{'t': 'new', 'obj': 0, 'M': m}] + [request(r, 0, m, s) for s in (m, 0, m + 1, m, min(m, 128), m)] + [{'t': 'del', 'obj': 0}]))
    return hs


def run_histories(hs):
    exes = {v: harness('conv_driver', v) for v in sorted({h[0] for h in hs})}
    envs = {'std': {'MALLOC_PERTURB_': '165'}, 'asan': {'ASAN_OPTIONS': 'detect_leaks=0'}}
    return pmap(lambda h: {'ev': play(exes[h[0]], envs[h[0]], h[1])}, hs)


def check(pid, ev):
    model_check('ConvAlg', ev=ev)
    inductive(['ConvIndex'], ev)
    if harness('conv_driver', optional=True) is None:
        # the class has another interface now: only its effect on the results can be judged
        log('note: FFTWConvolver could not be driven directly; checking it through ecdf2')
        import exact
        return api.single_event_check(pid, exact.two_sided('fft', ev), ev)
    r = gen.rng_for(SEED, pid)
    hs = histories(r, THOROUGH)
    res = run_histories(hs)
    n = 0
    for x in res[::max(1, len(res) // 6)]:
        ev.samples.append(' ; '.join(describe(e)[:100] for e in x['ev'][:3]))
    ev.extra['requests'] = {v: sum(len(h[1]) + sum(e.get('turns', 0) * len(e.get('asked', [])) for e in h[1]) for h in hs if h[0] == v) for v in ('std', 'asan')}
    ev.extra['sizes'] = len({e['size'] for h in hs for e in h[1] if e['t'] == 'conv'})
    bad = check_traces('ConvTrace', res, ev)
    if not bad:
        return []
    idx = sorted({b[0] - 1 for b in bad})[:10]
    again = run_histories([hs[i] for i in idx])
    def report(xs, rejected, variant):
        return [{'history': [describe(e)[:200] for e in xs[s - 1]['ev'][:l]], 'event': xs[s - 1]['ev'][l - 1],
                 'text': '%s, request %d: %s' % (variant(s - 1), l, describe(xs[s - 1]['ev'][l - 1]))} for s, l in rejected]
    return stands(report(res, bad, lambda i: hs[i][0]), report(again, check_traces('ConvTrace', again), lambda i: hs[idx[i]][0]))
