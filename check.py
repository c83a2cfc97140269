#!/usr/bin/env python3
"""check.py <property> | setup: decides one property for the code in /repo. See DESIGN.md."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vc

MODULES = {'C01': 'exact', 'C02': 'exact', 'C03': 'exact', 'C04': 'exact',
           'C05': 'relations', 'C06': 'relations', 'C07': 'relations', 'C08': 'validity', 'C12': 'history', 'C17': 'convolver', 'C18': 'poisson', 'C15': 'randomness', 'C09': 'files', 'C10': 'cli', 'C11': 'pyapi', 'C20': 'store', 'C16': 'cli', 'C19': 'cost', 'C13': 'montecarlo', 'C14': 'montecarlo', 'C21': 'mnplus', 'C22': 'held'}


def main():
    pid = sys.argv[1]
    if pid == 'setup':
        return vc.setup()
    ev = vc.Evidence(pid)
    known = vc.known_findings(pid)
    try:
        mod = __import__(MODULES[pid])
        found = mod.check(pid, ev)
    except vc.Stuck as e:
        found = [{'text': 'no end of ' + x[:1000]} for x in e.args[0]]
    except vc.CheckError as e:
        print('ERROR of the check:', e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    # a violation is a dict with 'text', and 'key' if it can be a known finding
    new = [v for v in found if v.get('key') not in known]
    for key, text in known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    ev.write(len(new))
    for v in new[:10]:
        print('  rejected:', v['text'])
    if new:
        path = vc.replay_file(pid, {'property': pid, 'violations': new[:10]})
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    vc.log('%s holds on everything explored' % pid)
    return 0


sys.exit(main())
