"""C20: the store of named results (spec/Store)."""
import gen
from vc import *


def play(job):
    sessions, restart = job
    os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)
    d = tempfile.mkdtemp(prefix='store.', dir=os.path.join(BUILD, 'traces'))
    res = []
    try:
        shutil.copy(os.path.join(REPO, 'benchmarks', 'pickler.py'), d)
        cmd = [sys.executable, '-B', os.path.join(VERIF, 'harness', 'store_driver.py'), d]
        dr = Driver(cmd)
        for ops in sessions:
            dr.ask('clear')
            ev = []
            for i, (t, n, v) in enumerate(ops):
                if restart and i % restart == restart - 1:
                    dr.close()
                rep = dr.ask('%s %d %d' % (t, n, v))
                if isinstance(rep, tuple):
                    raise CheckError('store driver: %s' % (rep,))
                w = rep.split(' ', 1)
                e = {'t': t, 'n': n, 'v': v, 'out': w[0]}
                if t == 'load':
                    e['v'] = int(w[1]) if w[0] == 'ok' else 0
                if w[0] == 'error':
                    e['why'] = w[1]
                ev.append(e)
            res.append({'ev': ev})
        dr.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def check(pid, ev):
    if not os.path.exists(os.path.join(REPO, 'benchmarks', 'pickler.py')):
        raise CheckError('there is no benchmarks/pickler.py')
    r = gen.rng_for(SEED, pid)
    m = tlc('StoreMC', env={'LENGTH': '5' if THOROUGH else '4'}, cfg='StoreMC.cfg')
    ev.tlc(m)
    hs = []
    for x in sorted(set(re.findall(r'"HISTORY (.*?)>>"', m.out, re.S))):
        ops = [(a, int(b), int(c)) for a, b, c in re.findall(r'"?(\w+)\\?", (\d+), (\d+)', x)]
        hs.append([('dump' if a == 'dumped' else 'load', n, v) for a, n, v in ops])
    if not hs:
        raise CheckError('no histories')
    ev.models.append('Store: %d distinct states, %d histories' % (m.distinct, len(hs)))
    long = []
    for _ in range(200 if THOROUGH else 30):
        long.append([('load', r.randint(1, 8), 0) if r.random() < 0.5 else ('dump', r.randint(1, 8), r.choice(list(range(1, 13)) + [99]))
                     for _ in range(200 if THOROUGH else 60)])
    jobs = [(hs[i::8], 0) for i in range(8)] + [(long[i::8], 0) for i in range(8)] + [([x], 7) for x in long[:8]]
    per = pmap(play, jobs)
    flat = [x for p in per for x in p]
    ops = [ops for j in jobs for ops in j[0]]
    for x in flat[::max(1, len(flat) // 6)]:
        ev.samples.append(' '.join('%s %d %d %s;' % (e['t'], e['n'], e['v'], e['out']) for e in x['ev'][:8]))
    bad = check_traces('StoreTrace', flat, ev)
    if not bad:
        return []
    again = play(([ops[s - 1][:l] for s, l in bad[:10]], 0))
    def report(xs, rejected):
        return [{'session': xs[s - 1], 'text': json.dumps(xs[s - 1]['ev'][max(0, l - 4):l])} for s, l in rejected]
    return stands(report(flat, bad), report(again, check_traces('StoreTrace', again)))
