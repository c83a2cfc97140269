"""Shared machinery of the checks: builds, TLC, drivers, evidence, verdicts."""
import hashlib, json, math, os, queue, random, re, resource, select, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = os.cpu_count() or 4
INC = ['-include', 'iterator', '-include', 'limits']
TLA = '/opt/veriftools/tla'
START = time.time()
os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)


class CheckError(Exception):
    """The check itself could not do its work: neither a pass nor a violation."""


class Stuck(Exception):
    """Several calls did not end. The texts say which."""


# CPU seconds, so that it does not matter how busy the machine is. No call of the checks needs more than a few.
CPU_LIMIT = 300 if THOROUGH else 60
_stuck, _stuck_lock = [], threading.Lock()


def stuck(text=None):
    """Notes a call that used up CPU_LIMIT. After the third nothing more is asked: there is a violation, and no time."""
    with _stuck_lock:
        if text:
            log('note: no end of ' + text[:300])
            _stuck.append(text)
        if len(_stuck) >= 3:
            raise Stuck(list(_stuck))


def run_limited(cmd, cpu=None, timeout=None, **kw):
    """As run, with a limit on CPU time; a program that reaches it is noted as stuck. Raises TimeoutExpired, too."""
    stuck()
    p = subprocess.Popen(cmd, **kw)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu or CPU_LIMIT, (cpu or CPU_LIMIT) + 5))
    except (OSError, ValueError):
        pass
    end = time.time() + (timeout or 10 ** 6)
    try:
        while True:
            try:
                out, err = p.communicate(timeout=max(0, min(5, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                stuck()
                if time.time() >= end:
                    raise
    except BaseException:
        p.kill()
        p.communicate()
        raise
    if p.returncode in (-24, 152):
        stuck(' '.join(map(str, cmd)))
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def log(*a):
    print('[%6.1fs]' % (time.time() - START), *a, flush=True)


def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    kw.setdefault('text', True)
    return subprocess.run(cmd, **kw)


def clean_env(**extra):
    env = {k: v for k, v in os.environ.items()
           if k not in ('MAKEFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CFLAGS', 'CPPFLAGS', 'PYTHONPATH', 'LD_PRELOAD')}
    env.update(LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1')
    env.update(extra)
    return env


# ------------------------------------------------------------------ builds

def _files(top, exts=None):
    out = []
    for d, dirs, names in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', '.git', 'pickles'))
        for f in sorted(names):
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return out


def source_key(extra=()):
    h = hashlib.sha256()
    for f in ([os.path.join(REPO, 'Makefile'), os.path.join(REPO, 'setup.py')]
              + _files(os.path.join(REPO, 'src')) + _files(os.path.join(REPO, 'python_extension'))
              + _files(os.path.join(VERIF, 'harness')) + list(extra)):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    try:
        cpu = [l for l in open('/proc/cpuinfo') if l.startswith(('model name', 'flags'))][:2]
        h.update(''.join(cpu).encode())
    except OSError:
        pass
    return h.hexdigest()[:20]


_copy_lock = threading.Lock()
_build_locks = {}


def build_root():
    d = os.path.join(BUILD, 'code', source_key())
    os.makedirs(d, exist_ok=True)
    # drop builds of other source trees
    for x in os.listdir(os.path.dirname(d)):
        p = os.path.join(os.path.dirname(d), x)
        if p != d and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    return d


def once(name, make):
    """Run make(tmpdir) and rename tmpdir to build_root()/name, unless it is there already."""
    with _copy_lock:
        lock = _build_locks.setdefault(name, threading.Lock())
    with lock:
        root = build_root()
        dst = os.path.join(root, name)
        if os.path.isdir(dst):
            return dst
        tmp = tempfile.mkdtemp(prefix=name + '.', dir=root)
        try:
            make(tmp)
            try:
                os.rename(tmp, dst)
            except OSError:
                if not os.path.isdir(dst):
                    raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return dst


def _copy_tree(dst, what=('src', 'Makefile')):
    for x in what:
        s = os.path.join(REPO, x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, x), ignore=shutil.ignore_patterns('__pycache__', 'pickles'))
        elif os.path.isfile(s):
            shutil.copy2(s, os.path.join(dst, x))


def _make_programs(flags=None, cxx='g++'):
    def make(tmp):
        _copy_tree(tmp)
        cmd = ['make', '-j%d' % JOBS, 'CXX=' + ' '.join([cxx] + INC + (flags[0] if flags else [])), 'all']
        if flags:
            cmd.append('CXXFLAGS=' + ' '.join(flags[1]))
            cmd.append('LDFLAGS=-lfftw3')
        r = run(cmd, cwd=tmp, env=clean_env())
        if r.returncode != 0 or not os.path.exists(os.path.join(tmp, 'bin/crossprob')):
            raise CheckError('building the programs failed:\n' + r.stdout[-3000:])
    return make


ASAN = (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
        ['-Wall', '-std=c++11', '-O1', '-g', '-ffast-math', '-fwrapv'])
PLAIN = ([], ['-Wall', '-std=c++11', '-O1', '-g', '-ffast-math', '-fwrapv'])
VARIANTS = {'std': None, 'asan': ASAN, 'plain': PLAIN}


def programs(variant='std'):
    """Directory with bin/crossprob, bin/crossprob_mc and build/*.o made by the repository's Makefile."""
    return once('prog-' + variant, _make_programs(VARIANTS[variant]))


def harness(name, variant='std', optional=False):
    """Executable of harness/<name>.cc linked with the library objects. None if optional and it does not compile."""
    prog = programs(variant)
    fl = VARIANTS[variant]

    def make(tmp):
        objs = [os.path.join(prog, 'build', f) for f in sorted(os.listdir(os.path.join(prog, 'build')))
                if f.endswith('.o') and f not in ('crossprob.o', 'crossprob_mc.o')]
        cmd = (['g++'] + INC + (fl[0] + fl[1] if fl else ['-Wall', '-std=c++11', '-O2', '-fwrapv', '-march=native'])
               + ['-I' + os.path.join(prog, 'src'), '-o', os.path.join(tmp, name),
                  os.path.join(VERIF, 'harness', name + '.cc')] + objs + ['-lfftw3'])
        # the harness itself must see NaN and infinity
        cmd = [c for c in cmd if c != '-ffast-math']
        r = run(cmd, env=clean_env())
        if r.returncode != 0:
            raise CheckError('building harness %s failed:\n%s' % (name, r.stdout[-3000:]))
    try:
        return os.path.join(once('h-%s-%s' % (name, variant), make), name)
    except CheckError as e:
        if optional:
            log('note:', str(e)[-600:])
            return None
        raise


def python_module(regenerate=False):
    """Directory that holds the built crossprob module: of the committed wrapper, or of one that SWIG makes from
    src/crossprob.i like 'make python' does (None without SWIG)."""
    if regenerate and not shutil.which('swig'):
        return None

    def make(tmp):
        _copy_tree(tmp, ('src', 'python_extension', 'setup.py', 'README.md'))
        if regenerate:
            r = run(['swig', '-c++', '-o', 'python_extension/crossprob.cc', '-python', 'src/crossprob.i'], cwd=tmp, env=clean_env())
            if r.returncode != 0:
                raise CheckError('swig failed:\n' + r.stdout[-3000:])
        # the extension's sources, compiled in parallel with distutils' flags
        env = clean_env(CC='gcc', CXX='g++', CFLAGS=' '.join(INC))
        r = run([sys.executable, '-W', 'ignore', 'setup.py', 'build_ext', '--parallel', str(JOBS), 'build_py',
                 '--build-lib', 'lib', 'build_ext', '--build-lib', 'lib', '--build-temp', 'obj'],
                cwd=tmp, env=env)
        if r.returncode != 0:
            raise CheckError('building the Python module failed:\n' + r.stdout[-3000:])
    return os.path.join(once('pygen' if regenerate else 'py', make), 'lib')


def fake_clock():
    def make(tmp):
        src = os.path.join(tmp, 'clock.c')
        open(src, 'w').write('''
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static long now(void) { const char* s = getenv("FAKE_TIME"); return s ? atol(s) : 1700000000L; }
time_t time(time_t* t) { time_t v = now(); if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void* tz) { tv->tv_sec = now(); tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) { ts->tv_sec = now(); ts->tv_nsec = 0; return 0; }
''')
        r = run(['gcc', '-shared', '-fPIC', '-w', '-O1', '-o', os.path.join(tmp, 'clock.so'), src])
        if r.returncode != 0:
            raise CheckError(r.stdout)
    return os.path.join(once('clock', make), 'clock.so')


# --------------------------------------------------------------------- TLC

_classes_lock = threading.Lock()


def classes():
    with _classes_lock:
        src = os.path.join(VERIF, 'java', 'BigNatOverrides.java')
        key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        d = os.path.join(BUILD, 'classes-' + key)
        if not os.path.isdir(d):
            os.makedirs(BUILD, exist_ok=True)
            tmp = tempfile.mkdtemp(dir=BUILD)
            r = run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', tmp, src])
            if r.returncode != 0:
                raise CheckError('javac failed:\n' + r.stdout)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return d


class Tlc:
    def __init__(self, out, module):
        self.out, self.module = out, module
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.bad = sorted({tuple(int(x) for x in b.split(',')) for b in re.findall(r'<<"BAD", ([-\d, ]+)>>', out)})
        self.finished = 'Model checking completed. No error has been found.' in out
        self.rejected = 'Accepted' in out and 'violated' in out or bool(self.bad)


def tlc(module, env=None, cfg=None, workers=None, timeout=800, args=(), heap='12g', allow_reject=False):
    cp = ':'.join([TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar', classes()])
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix='tlc.', dir=BUILD)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + meta,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNatOverrides',
           '-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers or JOBS), '-metadir', meta,
           '-config', cfg or module + '.cfg', *args, module + '.tla']
    t0 = time.time()
    try:
        r = run(cmd, cwd=SPEC, env=clean_env(**(env or {})), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = Tlc(r.stdout, module)
    res.seconds = time.time() - t0
    log('TLC %s: %d states, %d distinct, %.1fs%s' % (cfg or module, res.generated, res.distinct, res.seconds,
                                                    ', %d rejected' % len(res.bad) if res.bad else ''))
    if not res.finished and not (allow_reject and res.rejected):
        raise CheckError('TLC failed on %s:\n%s' % (module, r.stdout[-4000:]))
    return res


def setup():
    """What no check depends on the code for: the compiled module override, checked against its TLA+ reference."""
    classes()
    tlc('BigNatTest')
    return 0


def model_check(module, cfg=None, ev=None, **kw):
    """Exhaustive check of a model that does not depend on the code. Any failure is an error of the check."""
    r = tlc(module, cfg=cfg, **kw)
    if ev is not None:
        ev.tlc(r)
        ev.models.append('%s: %d distinct states' % (cfg or module, r.distinct))
    return r


def inductive(modules, ev=None):
    """IndInv of each module is inductive: shown by Apalache, symbolically, so without bounds on the integers.
    These models do not depend on the code. Only a counterexample is an error."""
    def one(job):
        module, args = job
        out = tempfile.mkdtemp(prefix='apalache.', dir=BUILD)
        try:
            r = run(['apalache-mc', 'check', '--out-dir=' + out, '--inv=IndInv', *args, module + '.tla'], cwd=SPEC,
                    env=clean_env(JVM_ARGS='-Xmx2g', HOME=out), timeout=300)
            return r.stdout
        except (OSError, subprocess.TimeoutExpired) as e:
            return str(e)
        finally:
            shutil.rmtree(out, ignore_errors=True)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    steps = (('--init=Init', '--length=0'), ('--init=IndInit', '--length=1'))
    jobs = [(m, s + (('--cinit=ConstInit',) if m == 'ConvIndex' else ())) for m in modules for s in steps]
    res = pmap(one, jobs)
    for m in modules:
        outs = [o for (n, _), o in zip(jobs, res) if n == m]
        if any('ERROR (12)' in o for o in outs):
            raise CheckError('Apalache refutes %s:\n%s' % (m, '\n'.join(outs)[-3000:]))
        ok = all('EXITCODE: OK' in o for o in outs)
        log('Apalache %s: IndInv %s, %.1fs' % (m, 'is inductive' if ok else 'not decided: ' + outs[0][-200:] + outs[-1][-200:], time.time() - t0))
        if ev is not None and ok:
            ev.models.append('%s: IndInv is inductive (Apalache, no bound)' % m)


# ---------------------------------------------------------- exact numbers

def limbs(x):
    out = []
    while x:
        out.append(x & 0x7fff)
        x >>= 15
    return out


def frac(neg, num, den):
    return {'neg': 1 if neg else 0, 'num': limbs(num), 'den': limbs(den)}


def number(x):
    """An outcome record for a float."""
    if math.isnan(x) or math.isinf(x):
        return {'k': 'nan'}
    a, b = x.as_integer_ratio()
    return dict(k='value', **frac(a < 0, abs(a), b))


def decimal(text):
    """An outcome record for a printed number, exactly as printed."""
    from fractions import Fraction
    try:
        f = Fraction(text)
    except (ValueError, ZeroDivisionError):
        return {'k': 'nan'}
    return dict(k='value', **frac(f < 0, abs(f.numerator), f.denominator))


# ------------------------------------------------------------------ driver

def runs_of(levels):
    out = []
    for x in levels:
        if out and out[-1][1] == x:
            out[-1][0] += 1
        else:
            out.append([1, x])
    return out


def expand(runs):
    return [l for c, l in runs for _ in range(c)]


class Driver:
    """One process of a line-based harness. Restarted when it dies or hangs."""
    def __init__(self, cmd, env=None, timeout=120):
        self.cmd, self.env, self.timeout = cmd, clean_env(**(env or {})), timeout
        self.p = None
        self.err = None

    def start(self):
        if self.err:
            self.err.close()
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=self.env, bufsize=0)
        self.buf = b''

    def ask(self, line):
        """The answer line without its id, or ('crash', text), ('hang', text)."""
        stuck()
        if self.p is None:
            self.start()
        try:
            data = (line + '\n').encode()
            self.p.stdin.write(data)
        except OSError:
            pass
        end, used = time.time() + self.timeout, None
        while b'\n' not in self.buf:
            left = end - time.time()
            r = select.select([self.p.stdout], [], [], max(0, min(left, 10)))[0]
            if not r and left > 10:
                if len(_stuck) >= 3:
                    self.p.kill(); self.p.wait(); self.p = None
                    stuck()
                now = self.cpu()
                used = now if used is None else used
                if now - used < CPU_LIMIT:
                    continue
                self.p.kill(); self.p.wait(); self.p = None
                stuck('the call ' + line)
                return ('hang', 'no answer within %d s of CPU time' % CPU_LIMIT)
            if not r:
                self.p.kill(); self.p.wait(); self.p = None
                return ('hang', 'no answer within %d s' % self.timeout)
            chunk = os.read(self.p.stdout.fileno(), 65536)
            if not chunk:
                rc = self.p.wait()
                self.err.seek(0)
                text = self.err.read().decode(errors='replace')[-3000:]
                self.p = None
                if rc == 9:
                    raise CheckError('harness: ' + text)
                return ('crash', 'exit status %d %s' % (rc, text))
            self.buf += chunk
        out, self.buf = self.buf.split(b'\n', 1)
        return out.decode(errors='replace')

    def cpu(self):
        try:
            w = open('/proc/%d/stat' % self.p.pid).read().rsplit(')', 1)[1].split()
            return (int(w[11]) + int(w[12])) / os.sysconf('SC_CLK_TCK')
        except OSError:
            return 0

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except (OSError, subprocess.TimeoutExpired):
                self.p.kill(); self.p.wait()
            self.p = None
        if self.err:
            self.err.close(); self.err = None


def hexlist(v):
    return ' '.join([str(len(v))] + [x if isinstance(x, str) else float(x).hex() for x in v])


def outcome(reply):
    """Outcome record of a reply of api_driver."""
    if isinstance(reply, tuple):
        return {'k': reply[0], 'why': reply[1][-400:]}
    parts = reply.split(' ', 2)
    kind = parts[1] if len(parts) > 1 else ''
    rest = parts[2] if len(parts) > 2 else ''
    if kind == 'V':
        x = float.fromhex(rest) if 'x' in rest else float(rest)
        o = number(x)
        o['show'] = repr(x)
        return o
    if kind == 'E':
        return {'k': 'error', 'why': rest[:200]}
    if kind == 'M':
        return {'k': 'mutated'}
    return {'k': 'exception', 'why': reply[:200]}


# ---------------------------------------------------------------- evidence

class Evidence:
    def __init__(self, pid):
        self.pid = pid
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.assumptions = [], [], []
        self.extra = {}

    def tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def write(self, violations=0):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples[:12] or ['none']}
        if self.models:
            cov['models'] = self.models
        cov.update(self.extra)
        doc = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED,
               'level': 'model_checking', 'coverage': cov, 'assumptions': self.assumptions,
               'wall_s': round(time.time() - START, 2), 'violations': violations}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
            f.write('\n')


def write_trace(name, sessions):
    d = os.path.join(BUILD, 'traces')
    os.makedirs(d, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix=name + '.', suffix='.ndjson', dir=d)
    with os.fdopen(fd, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s) + '\n')
    return path


def check_traces(module, sessions, ev=None, timeout=800, env=None):
    """Sessions that TLC does not accept, as a list of (index, BAD tuple rest)."""
    if not sessions:
        return []
    path = write_trace(module, sessions)
    try:
        r = tlc(module, env=dict(env or {}, TRACE=path), allow_reject=True, timeout=timeout)
    finally:
        os.unlink(path)
    if ev is not None:
        ev.tlc(r)
        ev.traces += len(sessions)
    if r.rejected and not r.bad:
        raise CheckError('%s rejects the traces without naming one:\n%s' % (module, r.out[-3000:]))
    return r.bad


def replay_file(pid, data):
    d = os.path.join(BUILD, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')
    return path


def stands(first, again):
    """The violations that came back when the rejected sessions were played again. When none did, those recorded the
    first time: a wrong answer was given, whether or not it depends on what else the process had been asked; except
    what a busy machine explains (no answer in time, a process that was ended)."""
    if again:
        return again
    out = [v for v in first if not re.search(r'"k": "hang"|exit status -9\b|"why": "(hang|-9): ', json.dumps(v))]
    log('note: %d rejected, none repeated%s' % (len(first), '' if out else '; none stands'))
    for v in out:
        v['text'] += ' (did not repeat in a new process)'
    return out


def known_findings(pid):
    """Lines 'KNOWN property=<id> key=<key> <text>' of known_findings.txt; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def pmap(f, items, jobs=None):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, items))


def enumerate_questions(kind, maxn, maxm, valid=True, ev=None):
    """All questions of a kind on small grids, enumerated by TLC from module Questions."""
    os.makedirs(os.path.join(BUILD, 'traces'), exist_ok=True)
    d = tempfile.mkdtemp(prefix='questions.', dir=os.path.join(BUILD, 'traces'))
    try:
        tlc('Questions', env={'OUT': d, 'KIND': kind, 'VALID': '1' if valid else '0',
                              'MAXN': str(maxn), 'MAXM': str(maxm)})
        out = []
        for f in sorted(os.listdir(d)):
            out += [json.loads(l) for l in open(os.path.join(d, f))]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if ev is not None:
        ev.models.append('Questions(%s%s, n <= %d, m <= %d): %d questions'
                         % (kind, '' if valid else ' incl. invalid', maxn, maxm, len(out)))
    return out
