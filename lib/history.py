"""C12: the outcome of a call does not depend on the calls before it, and no history crashes (spec/ApiTrace)."""
import math
import gen, api
from vc import *

OPS = ('ks', 'fft', 'new_b', 'new_B', 'mns_b', 'mns_B')


def for_op(r, op, x):
    if op in api.LOWER:
        return dict(x, B=[])
    if op in api.UPPER:
        return dict(x, b=[])
    return x


def pool(r, big):
    """For every algorithm one call of every kind: (kind, op, question)."""
    out = []
    for op in OPS:
        two = op in api.BOTH
        def add(kind, x):
            out.append((kind, op, dict(for_op(r, op, x), id=len(out))))
        add('empty', gen.q(1, [], [], grid=1))
        add('one', gen.q(7, [[1, r.randint(0, 3)]], [[1, r.randint(4, 7)]]))
        add('small', gen.small_pair(r, 9) if two else gen.corridor(r, r.randint(3, 9)))
        add('ties', gen.clustered(r))
        add('middle', gen.corridor(r, r.randint(20, 60)))
        n = r.randint(130, 200)
        add('wide', gen.levels_question(r, n, 64, 2, sizes=[127, 128, 129]))
        if big:
            add('large', gen.levels_question(r, 1100, 16, 2, sizes=[1023, 1024, 1025]) if op == 'fft' or op.startswith('new')
                else gen.levels_question(r, 500, 16, 2, sizes=[200, 400]))
        add('zero', gen.q(8, [[3, 0], [2, 6]], [[3, 4], [2, 5]]) if two else
            gen.q(8, [[4, 2], [1, 8]], [[1, 0], [4, 5]]))
        add('trivial', gen.q(4, [[30, 0]], [[30, 4]]))
        add('falling', dict(gen.q(9, [[2, 4], [1, 3], [2, 5]], [[2, 4], [1, 3], [2, 9]]), grid=0))
        add('outside', dict(gen.q(9, [[1, -1], [3, 4]], [[3, 4], [1, 10]]), grid=0))
        add('nan', dict(gen.q(9, [[1, 1], [1, 2147483646], [3, 5]], [[1, 3], [1, 2147483646], [3, 7]]), grid=0,
                        vals={'2147483646': 'nan'}))
        if two:
            add('unequal', dict(gen.q(9, [[3, 1]], [[5, 8]]), grid=0))
    return out


def sibling(r, v, m):
    """A list with the same first, last and middle numbers (nearly always) and, if it can be done, the same sum."""
    n = len(v)
    inner = [i for i in range(1, n - 1) if i not in (n // 2, (n - 1) // 2)]
    lo = lambda i: v[i - 1] if i else 0
    hi = lambda i: v[i + 1] if i < n - 1 else m
    up = [i for i in inner if v[i] < hi(i)]
    down = [i for i in inner if v[i] > lo(i)]
    r.shuffle(up)
    r.shuffle(down)
    for i in up:
        for j in down:
            if i != j:
                d = r.randint(1, min(hi(i) - v[i], v[j] - lo(j)))
                w = list(v)
                w[i] += d
                w[j] -= d
                if w == sorted(w):
                    return w
    for i in up or [i for i in range(n) if v[i] < hi(i)]:
        return v[:i] + [r.randint(v[i] + 1, hi(i))] + v[i + 1:]
    return v


def siblings(r, op, n):
    """Questions that differ in one or two numbers, in turn, some asked again: op answers each anew."""
    m = r.choice([64, 256, 1024])
    w = 0.8 / math.sqrt(n)
    at = lambda i: max(0, min(m, math.floor(m * (i / n + r.uniform(-w, w)))))
    b = sorted(at(i - 0.3 * math.sqrt(n)) for i in range(n))
    B = [max(x, y + 1, 1) if y < m else m for x, y in zip(sorted(at(i + 1 + 0.3 * math.sqrt(n)) for i in range(n)), b)]
    B = sorted(B)
    seen = [(b, B)]
    for k in range(12):
        x, y = r.choice(seen[-2:])
        which = r.random()
        if which < 0.4:
            x = sibling(r, x, m)
        elif which < 0.8:
            y = sibling(r, y, m)
        else:
            x, y = sibling(r, x, m), sibling(r, y, m)
        seen += [(x, y)]
        if r.random() < 0.3:
            seen += [r.choice(seen)]
    ids = {}
    out = []
    for x, y in seen:
        q = for_op(r, op, gen.q(m, runs_of(x), runs_of(y)))
        i = ids.setdefault(json.dumps(q), len(ids))
        out.append(('sibling', op, dict(q, id=i, grid=1 if n <= 30 else 0)))
    return out


def walk(r, k):
    """A closed walk through the complete directed graph on 0..k-1 with loops: every ordered pair once."""
    nxt = [r.sample(range(k), k) for _ in range(k)]
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]


def ask_turns(exe, env, calls, turns):
    """The calls in turn, many times: one event for every different outcome of each."""
    d = Driver([exe], env=env, timeout=200)
    try:
        lines = ['%d %s %s %s' % ((i, c[1]) + tuple(hexlist(v) for v in api.lists(c[2]))) for i, c in enumerate(calls)]
        a = d.ask('\n'.join(['turns %d %d' % (turns, len(calls))] + lines))
    finally:
        d.close()
    if isinstance(a, tuple):
        return [dict(c[2], kind=c[0], a=[{'op': c[1], 'out': outcome(a)}]) for c in calls[:1]]
    outs = [x.split('\1') for x in a.split('\2')[1:]]
    if len(outs) != len(calls):
        raise CheckError('api_driver: ' + a[:300])
    return [dict(c[2], kind=c[0], a=[{'op': c[1], 'out': outcome('q ' + o)}]) for c, os in zip(calls, outs) for o in os]


def ask_history(exe, env, calls, wrap=(), timeout=200):
    d = Driver(list(wrap) + [exe], env=env, timeout=timeout)
    ev = []
    try:
        for kind, op, x in calls:
            b, B = api.lists(x)
            o = outcome(d.ask('q %s %s %s' % (op, hexlist(b), hexlist(B))))
            ev.append(dict(x, kind=kind, a=[{'op': op, 'out': o}]))
    finally:
        d.close()
    return ev


def histories(r, T):
    """(variant, wrapper, env, calls)"""
    out = []
    for k in range(6 if T else 2):
        p = pool(r, True)
        path = [p[i] for i in walk(r, len(p))]
        c = -(-len(path) // 12)
        for i in range(0, len(path), c):
            out.append(('std', (), {'MALLOC_PERTURB_': str(r.choice([0, 1, 90, 170, 255]))}, path[max(0, i - 1):i + c]))
    p = pool(r, True)
    for k in range(24 if T else 8):
        out.append(('asan', (), {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'halt_on_error=1'},
                    [r.choice(p) for _ in range(60)]))
    p = pool(r, False)
    for k in range(8 if T else 4):
        out.append(('plain', ('valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes'), {},
                    p[k::8 if T else 4] + [r.choice(p) for _ in range(10 if T else 3)]))
    # sizes that shrink and grow
    for k in range(20 if T else 8):
        ops = [r.choice(OPS) for _ in range(2)]
        calls = []
        for n in r.sample([1, 2, 3, 5, 10, 50, 99, 100, 101, 127, 128, 129, 200, 255, 256, 300, 400], 10):
            for op in ops:
                calls.append(('n=%d' % n, op, dict(for_op(r, op, gen.corridor(r, n)), id=1000 + len(calls), grid=1 if n <= 60 else 0)))
        calls += [r.choice(calls) for _ in range(20)]
        out.append(('std', (), {'MALLOC_PERTURB_': str(r.choice([0, 85, 254]))}, calls))
    # tens of thousands of calls in one process, of a few questions in turn
    for k in range(12 if T else 6):
        ops = [OPS[k % 6]] * 3 + [r.choice(OPS) for _ in range(2)]
        calls = []
        for op in ops:
            x = r.choice([lambda: gen.corridor(r, r.randint(1, 6)), lambda: gen.small_pair(r, 5), lambda: gen.clustered(r)])()
            calls.append(('small', op, dict(for_op(r, op, x), id=1000 + len(calls), grid=0)))
        bad = dict(gen.q(9, [[2, 4], [1, 3], [2, 5]], [[2, 4], [1, 3], [2, 9]]), grid=0)
        calls.append(('falling', ops[-1], dict(for_op(r, ops[-1], bad), id=1000 + len(calls))))
        out.append(('std', (), {}, calls, (40000 if T else 11000) * 6 // len(calls)))
    # questions that differ in one or two numbers only
    for k in range(120 if T else 36):
        op = OPS[k % 6]
        out.append(('std', (), {}, siblings(r, op, r.choice([4, 5, 6, 7, 8, 12, 20, 33, 64, 130, 300]))))
    # sizes that agree in their last bits or digits, or in their square root, and sizes of any magnitude
    for k in range(24 if T else 10):
        two = r.random() < 0.6
        ops = [r.choice([o for o in OPS if (o in api.BOTH) == two])]
        ops += [r.choice(OPS)] if r.random() < 0.3 else []
        top = 1200 if any(o.startswith('mns') for o in ops) else 2600
        sizes = []
        while len(sizes) < 10:
            n = round(math.exp(r.uniform(0, math.log(top / 2))))
            mod = r.choice([2 ** r.randint(4, 11), 2 ** 8, 10 ** r.randint(1, 3)])
            other = n + mod * r.randint(1, max(1, min(4, (top - n) // mod)))
            if other <= top:
                sizes += r.choice([[n, other], [other, n], [n, other, n]])
        calls = []
        for n in sizes:
            for op in ops:
                x = (gen.levels_question(r, n, 8, 2) if n > 60 else gen.corridor(r, n))
                calls.append(('n=%d' % n, op, dict(for_op(r, op, x), id=1000 + len(calls), grid=0)))
        out.append(('std', (), {}, calls))
    return out


def sessions(hs):
    exes = {v: harness('api_driver', v) for v in sorted({h[0] for h in hs})}
    memo = {}

    def reference(args):
        v, c = args
        env = dict(next(h[2] for h in hs if h[0] == v))
        env['MALLOC_PERTURB_'] = '0'
        return ask_history(exes[v], env, [c])[0]

    key = lambda h, c: (h[0], json.dumps([c[1], c[2]], sort_keys=True))
    todo = {}
    for h in hs:
        if h[0] != 'plain':
            for c in h[3]:
                todo[key(h, c)] = (h[0], c)
    memo = dict(zip(todo, pmap(reference, todo.values())))

    def one(h):
        ev = ask_turns(exes[h[0]], h[2], h[3], h[4]) if len(h) > 4 else ask_history(exes[h[0]], h[2], h[3], h[1])
        first = {}
        if h[0] != 'plain':
            for c in h[3]:
                first.setdefault(c[2]['id'], dict(memo[key(h, c)], fresh=1))
        for e in ev:                       # the exact value was compared once already
            if e['id'] in first or h[0] == 'plain':
                e['grid'] = 0
        return {'ev': list(first.values()) + ev}
    order = sorted(range(len(hs)), key=lambda i: {'plain': 0, 'asan': 1}.get(hs[i][0], 2))
    return dict(zip(order, pmap(one, [hs[i] for i in order])))


def check(pid, ev):
    r = gen.rng_for(SEED, pid)
    hs = histories(r, THOROUGH)
    res = sessions(hs)
    ss = [res[i] for i in range(len(hs))]
    for h, s in list(zip(hs, ss))[::max(1, len(hs) // 6)]:
        ev.samples.append('%s: %s' % (h[0], ' '.join('%s/%s=%s' % (e['kind'], e['a'][0]['op'], e['a'][0]['out']['k']) for e in s['ev'][-8:])))
    inductive(['SweepIndex', 'JumpIndex', 'ConvIndex'], ev)
    ev.extra['calls'] = {v: sum(len(h[3]) * (list(h) + [1])[4] for h in hs if h[0] == v) for v in ('std', 'asan', 'plain')}
    bad = check_traces('ApiTrace', ss, ev)
    if not bad:
        return []
    idx = sorted({b[0] - 1 for b in bad})[:10]
    res = sessions([hs[i] for i in idx])
    again = [res[i] for i in range(len(idx))]
    def report(xs, rejected, h):
        return [violation(xs[s - 1]['ev'][l - 1], xs[s - 1]['ev'][:l - 1], h(s - 1)) for s, l, j in rejected]
    return stands(report(ss, bad, lambda i: hs[i]), report(again, check_traces('ApiTrace', again), lambda i: hs[idx[i]]))


def violation(e, prev, h):
    return {'variant': h[0], 'env': h[2], 'calls': [x for x in prev if not x.get('fresh')] + [e], 'turns': (list(h) + [1])[4],
            'text': '%s %s after %d calls (%s...): %s' % (h[0], e['kind'], sum(1 for x in prev if not x.get('fresh')),
                                                          ' '.join('%s/%s' % (x['a'][0]['op'], x['kind']) for x in prev[-3:]),
                                                          api.describe(e))}
