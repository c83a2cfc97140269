"""Calls functions of the crossprob module as told by the lines of stdin (JSON), one answer line for each.

{"f": name, "args": [{"kind": .., "v": [hex or integer ..]} | {"flag": ..}], "kw": bool}"""
import array, collections, ctypes, decimal, fractions, gc, json, os, sys
import crossprob
try:
    import numpy
except ImportError:
    numpy = None


class Seq:
    """A sequence that is not a list."""
    def __init__(self, v):
        self.v = v
    def __len__(self):
        return len(self.v)
    def __getitem__(self, i):
        return self.v[i]


class Short(Seq):
    """Shorter than it says."""
    def __len__(self):
        return len(self.v) + 3


class Negative(Seq):
    def __len__(self):
        return -1


class Raises(Seq):
    def __getitem__(self, i):
        raise KeyError(i)


class RaisesLate(Seq):
    def __getitem__(self, i):
        if i == len(self.v) - 1:
            raise ValueError('no')
        return self.v[i]


class NoLength(Seq):
    def __len__(self):
        raise OSError('no length')


class Calls(Seq):
    """Calls the library whenever an item is asked for."""
    def __getitem__(self, i):
        crossprob.ecdf2([0.125, 0.25, 0.5], (0.5, 0.75, 1), i % 2 == 0)
        try:
            crossprob.ecdf1_new_b([0.5, 0.25])
        except RuntimeError:
            pass
        return self.v[i]


class Shrinks(Seq):
    """A list of its own that loses an item whenever one is asked for."""
    def __init__(self, v):
        self.v = v
        self.w = list(v)
    def __len__(self):
        return len(self.w)
    def __getitem__(self, i):
        x = self.w[i]
        self.w.pop()
        return x


class Iter:
    def __init__(self, v):
        self.v = v
    def __iter__(self):
        return iter(self.v)


class Float(float):
    pass


class List(list):
    pass


class HasFloat:
    def __init__(self, x):
        self.x = x
    def __float__(self):
        return self.x


def floats(v):
    return [float.fromhex(x) if isinstance(x, str) else x for x in v]


def integral(x):
    return x - x == 0 and x == int(x)


def build(a):
    k, v = a['kind'], floats(a.get('v', []))
    if k == 'list': return list(v)
    if k == 'tuple': return tuple(v)
    if k == 'array': return array.array('d', v)
    if k == 'deque': return collections.deque(v)
    if k == 'seq': return Seq(list(v))
    if k == 'vector': return crossprob.VectorDouble(list(v))
    if k == 'floats': return [Float(x) for x in v]
    if k == 'sublist': return List(v)
    if k == 'memory': return memoryview(array.array('d', v))
    if k == 'ints': return [int(x) if x in (0, 1) else x for x in v]
    if k == 'bools': return [bool(x) if x in (0, 1) else x for x in v]
    if k == 'numpy' and numpy is not None: return numpy.array(v, dtype=float)
    if k == 'numpy': return list(v)
    # integers of any size, wherever a number is one
    if k == 'integers': return [int(x) if integral(x) else x for x in v]
    if k == 'mixed': return tuple((int(x) if integral(x) else x, Float(x), x)[i % 3] for i, x in enumerate(v))
    if k == 'userlist': return collections.UserList(v)
    if k == 'calls': return Calls(list(v))
    # sequences of some numbers only: lists of the others
    if k == 'bytes': return bytes(map(int, v)) if all(integral(x) and 0 <= x < 256 for x in v) else list(v)
    if k == 'bytearray': return bytearray(map(int, v)) if all(integral(x) and 0 <= x < 256 for x in v) else list(v)
    if k == 'intarray': return array.array('q', map(int, v)) if all(integral(x) and abs(x) < 2 ** 62 for x in v) else list(v)
    if k == 'singles': return array.array('f', v) if all(abs(x) <= 1 for x in v) and list(array.array('f', v)) == v else list(v)
    if k == 'range':
        if v and all(integral(x) for x in v) and len(set(y - x for x, y in zip(v, v[1:]))) <= 1 and v[1:2] != v[:1]:
            step = int(v[1] - v[0]) if len(v) > 1 else 1
            return range(int(v[0]), int(v[-1]) + (1 if step > 0 else -1), step)
        return list(v)
    # may be taken for sequences of numbers
    if k == 'generator': return (x for x in v)
    if k == 'iter': return Iter(v)
    if k == 'set': return {v[0]} if v else set()
    if k == 'fractions': return [fractions.Fraction(x) if x - x == 0 else x for x in v]
    if k == 'decimals': return [decimal.Decimal(x) for x in v]
    if k == 'hasfloat': return [HasFloat(x) for x in v]
    if k == 'float32' and numpy is not None: return numpy.array(v, dtype='float32').astype(float).astype('float32') if False else numpy.array([numpy.float64(x) for x in v], dtype=object)
    if k == 'float32': return list(v)
    if k == 'short': return Short(list(v))
    if k == 'shrinks': return Shrinks(list(v))
    if k == 'negative': return Negative(list(v))
    if k == 'emptystr': return ''
    # None and others
    if k == 'none': return None
    if k == 'int': return 1
    if k == 'float': return 0.5
    if k == 'str': return '0.5'
    if k == 'digits': return '01'
    if k == 'dict': return {x: x for x in v}
    if k == 'listofstr': return [repr(x) for x in v] or ['0.5']
    if k == 'withnone': return list(v) + [None]
    if k == 'nonefirst': return [None] + list(v)
    if k == 'nonemiddle': return list(v[:len(v) // 2]) + [None] + list(v[len(v) // 2:])
    if k == 'withstr': return list(v) + ['1']
    if k == 'nested': return [list(v)]
    if k == 'pairs': return [(x, x) for x in v] or [(0, 1)]
    if k == 'complex': return [complex(x) for x in v] or [1j]
    if k == 'huge': return list(v) + [10 ** 400]
    if k == 'raises': return Raises([0.5] + list(v))
    if k == 'raiseslate': return RaisesLate(list(v) + [0.5])
    if k == 'nolength': return NoLength(list(v))
    if k == 'object': return object()
    if k == 'function': return build
    if k == 'type': return list
    if k == 'module': return sys
    if k == 'fn': return crossprob.ecdf2
    raise SystemExit('unknown kind ' + k)


FLAGS = {'true': True, 'false': False, 'one': 1, 'zero': 0, 'none': None, 'str': 'True', 'list': [], 'float': 1.0}


def same(x, y):
    return type(x) is type(y) and (x == y or x != x) and str(x) == str(y)


def contents(o):
    if isinstance(o, (list, tuple, array.array, collections.deque, collections.UserList, bytes, bytearray, range, dict, crossprob.VectorDouble)) \
            or numpy is not None and isinstance(o, numpy.ndarray):
        return list(o)
    if isinstance(o, (Seq, Iter)):
        return list(o.v)
    return None


def counts(args):
    """Reference counts of the arguments, and of the items of lists. Taken without references of ours."""
    return [sys.getrefcount(args[i]) for i in range(len(args))] + \
        [sys.getrefcount(args[i][j]) for i in range(len(args)) if type(args[i]) in (list, tuple, List) for j in range(len(args[i]))]


def modified(args, before):
    for i in range(len(args)):
        x = contents(args[i])
        if (x is None) != (before[i] is None) or x is not None and (
                len(x) != len(before[i]) or not all(same(y, z) for y, z in zip(x, before[i]))):
            return True
    return False


heap = ctypes.CDLL(None)             # heap.c, when it is preloaded
for line in sys.stdin:
    q = json.loads(line)
    if q['f'] == 'held':
        gc.collect()
        print('H %d %d %d' % (heap.heap_blocks(), heap.heap_bytes(), len(os.listdir('/proc/self/fd'))), flush=True)
        continue
    args = []
    for a in q['args']:
        args.append(FLAGS[a['flag']] if 'flag' in a else build(a))
    before = [contents(o) for o in args]
    o = None
    refs = counts(args)
    result = error = None
    try:
        f = getattr(crossprob, sys.intern(q['f']))
        if q.get('kw'):
            names = ('b', 'B', 'use_fft') if q['f'] == 'ecdf2' else (q['f'][-1],)
            result = f(**dict(zip(names, args)))
        else:
            result = f(*args)
    except SystemExit:
        raise
    except BaseException as e:
        error = (type(e).__name__, str(e)[:200])
        del e
    f = None
    kept = 2 if counts(args) != refs else 1 if modified(args, before) else 0
    if error:
        out = {'k': error[0], 'why': error[1]}
    elif type(result) is not float:
        out = {'k': 'not a float', 'why': repr(result)[:100]}
    else:
        out = {'k': 'value', 'x': result.hex()}
    out['kept'] = kept
    args = before = None
    print(json.dumps(out), flush=True)
