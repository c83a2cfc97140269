"""Asks the library questions (through harness/api_driver) and has TLC judge the sessions (spec/ApiTrace)."""
import itertools, json, os, threading
from vc import *

LOWER, UPPER, BOTH = ('new_b', 'mns_b'), ('new_B', 'mns_B'), ('ks', 'fft')


def token(qq, level):
    v = qq.get('vals', {}).get(str(level))
    return v if v is not None else level / qq['m']


def lists(qq):
    return ([token(qq, l) for l in expand(qq['b'])], [token(qq, l) for l in expand(qq['B'])])


def ask_all(questions, env=None, variant='std', timeout=200, jobs=None):
    """Answers all (question, ops) pairs, spread over several processes. Returns the events in order."""
    exe = harness('api_driver', variant)
    work = list(enumerate(questions))
    # expensive questions first
    work.sort(key=lambda x: -sum(c for c, l in x[1][0]['b'] + x[1][0]['B']))
    out = [None] * len(work)
    lock = threading.Lock()
    it = iter(work)

    def worker(_):
        d = Driver([exe], env=env, timeout=timeout)
        try:
            while True:
                with lock:
                    x = next(it, None)
                if x is None:
                    return
                i, (qq, ops) = x
                b, B = lists(qq)
                out[i] = dict(qq, a=[{'op': op, 'out': outcome(d.ask('q %s %s %s' % (op, hexlist(b), hexlist(B))))}
                                     for op in ops])
        finally:
            d.close()
    pmap(worker, range(jobs or JOBS), jobs or JOBS)
    for i, e in enumerate(out):
        e.setdefault('id', i)
    return out


def describe(ev, j=0):
    a = ev['a'][j]
    return '%s n=%d m=%d b=%s B=%s -> %s %s' % (
        a['op'], max(sum(c for c, _ in ev['b']), sum(c for c, _ in ev['B'])), ev['m'],
        json.dumps(ev['b'])[:200], json.dumps(ev['B'])[:200], a['out']['k'],
        a['out'].get('show', a['out'].get('why', '')))


def single_event_check(pid, pairs, ev, module='ApiTrace', ask=ask_all):
    """Asks (question, ops) pairs, each a session of its own, and returns the violations that repeat."""
    events = ask(pairs)
    for e in events[:: max(1, len(events) // 8)][:8]:
        ev.samples.append(describe(e))
    nontriv = sum(1 for e in events for a in e['a'] if a['out']['k'] == 'value' and 0 < len(a['out']['num']))
    ev.extra['answers'] = ev.extra.get('answers', 0) + sum(len(e['a']) for e in events)
    ev.extra['answers_nonzero'] = ev.extra.get('answers_nonzero', 0) + nontriv
    bad = check_traces(module, [{'ev': [e]} for e in events], ev)
    if not bad:
        return []
    idx = sorted({s - 1 for s, *_ in bad}, key=lambda i: sum(c for c, _ in events[i]['b'] + events[i]['B']))[:20]
    again = ask([pairs[i] for i in idx])
    bad2 = check_traces(module, [{'ev': [e]} for e in again])
    def report(es, rejected):
        return [{'event': es[s - 1], 'answer': j - 1, 'text': describe(es[s - 1], j - 1)} for s, _, j in rejected]
    return stands(report(events, bad), report(again, bad2))
