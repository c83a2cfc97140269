"""Dumps and loads results with benchmarks/pickler.py (copied to the directory given). One operation per line of stdin."""
import contextlib, io, os, shutil, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import pickler

NAMES = ['', 'a', 'b', 'a.b', 'Mn_plus_thresholds_0.05', 'a.pickle', 'a.pickle.gz', 'results of \u00fc', 'A']
VALUES = [None,
          {}, {'x': 1}, {'x': 2}, {'x': 1, 'y': 2}, {'y': [1, 2, {'z': (None, True)}]}, {'x': 'text \u00fc\n', 'b': b'\0\xff'},
          {'n_range': list(range(3000)), 'thresholds': [(i, i / 7) for i in range(3000)]}, {'x': float('inf'), 'zero': -0.0, 'tiny': 5e-324},
          {'metadata': {'date': 'x'}, 'data': 3, 'd': 4, 'self_': 5}, {'x': None}, {'big': 10 ** 100, 'long_' * 40: 0}, {'blob': os.urandom(0) + bytes(range(256)) * 2000}]
UNFIT = 99


def same(x, y):
    return type(x) is type(y) and repr(x) == repr(y)


for line in sys.stdin:
    w = line.split()
    out = ''
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if w[0] == 'dump':
                pickler.dump(NAMES[int(w[1])], **({'x': lambda: 0} if int(w[2]) == UNFIT else VALUES[int(w[2])]))
                out = 'ok'
            elif w[0] == 'load':
                got = dict(vars(pickler.load(NAMES[int(w[1])])))
                ids = [i for i, v in enumerate(VALUES) if v is not None and same(dict(sorted(v.items())), dict(sorted(got.items())))]
                out = 'ok %d' % (ids[0] if ids else -1)
            elif w[0] == 'clear':
                shutil.rmtree(os.path.join(sys.argv[1], 'pickles'), ignore_errors=True)
                out = 'ok'
        except Exception as e:
            out = 'error ' + repr(e)[:150].replace('\n', ' ')
    print(out, flush=True)
