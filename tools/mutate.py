#!/usr/bin/env python3
"""Mechanical changes to /repo/src (development only): which checks notice them.

  mutate.py list                 how many there are per file
  mutate.py run SEED COUNT [FILE..]   tries COUNT of them; prints what caught each, or SURVIVED

A change that does not compile, gives the same machine code or fails the stable tests is passed over. The checks
of a file are run in the order of CHECKS until one reports a violation."""
import difflib, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/mut'
CHECKS = {
    'common.cc': 'C01 C08 C03 C12', 'common.hh': 'C01 C03 C12',
    'ecdf2.cc': 'C01 C02 C08 C05 C12 C19 C22', 'ecdf1_new.cc': 'C03 C08 C05 C06 C12 C19 C22', 'ecdf1_mns2016.cc': 'C04 C08 C05 C06 C12 C19 C22',
    'fftwconvolver.cc': 'C17 C02 C03 C12 C19 C22', 'poisson_pmf.cc': 'C18 C01 C03 C12 C19 C22', 'poisson_pmf.hh': 'C18 C01 C03 C12 C19 C22',
    'aligned_mem.cc': 'C12 C22 C17', 'string_utils.cc': 'C09 C10 C16', 'read_boundaries_file.cc': 'C09 C10 C16 C22',
    'crossprob.cc': 'C10', 'crossprob_mc.cc': 'C16 C13 C14 C15 C22', 'tinymt64.c': 'C15 C13', 'tinymt64.h': 'C15 C13', 'crossprob.i': 'C11 C22',
}
OPS = [(r'<=', '<'), (r'(?<![<\w])<(?![<=\w])|(?<=\s)<(?=\s)', '<='), (r'>=', '>'), (r'(?<=\s)>(?=\s)', '>='), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\w\])]) ?\+ ?(?=[\w(])', ' - '), (r'(?<=[\w\])]) ?- ?(?=[\w(])', ' + '), (r'(?<=[\w\])]) ?\* ?(?=[\w(])', ' / '),
       (r'(?<=[\w\])]) ?/ ?(?=[\w(])', ' * '), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='), (r'\+\+', '--'), (r'--', '++'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r' ?\+ ?1\b', ''), (r'(?<=\w) ?- ?1\b', ''), (r'<<', '>>'), (r'>>', '<<'), (r'\^=', '|='), (r'\bbreak;', ''),
       (r'\bcontinue;', ''), (r'get_src', 'get_dest'), (r'get_dest', 'get_src'), (r'\bLL?ONG_MAX\b', 'INT_MAX')]
SKIP = re.compile(r'^\s*(//|#|\*|using|cout|ss <<|ss\.|stream|typedef|throw|namespace|extern|public:|private:|assert)|__asm')


def number(m):
    t = m.group(0)
    if re.fullmatch(r'\d+', t):
        return [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) > 0 else []) + ([str(int(t) * 2)] if int(t) > 8 else [])
    if re.fullmatch(r'\d+\.\d+', t):
        return [repr(float(t) + 1)]
    return []


def mutants(f):
    text = open(os.path.join('/repo/src', f)).read().split('\n')
    out, usage = [], False
    for i, line in enumerate(text):
        if re.search(r'void print_usage|operator<< ?\(|to_string\(|print_double_array', line) and not line.rstrip().endswith(';'):
            usage = True
        if usage:
            usage = line != '}'
            continue
        code = line.split('//')[0].rstrip()
        if not code.strip() or SKIP.match(code) or '"' in code and '==' not in code or '#include' in code:
            continue
        def add(new):
            if new != code:
                out.append((f, i, new))
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                add(code[:m.start()] + rep + code[m.end():])
        for m in re.finditer(r'(?<![\w.])\d+(\.\d+)?(?![\w.])', code):
            for r in number(m):
                add(code[:m.start()] + r + code[m.end():])
        if code.endswith(';') and not re.match(r'^\s*(const |static )?\w[\w<>:,\s*&]*\s[&*]?\w+( = .*|\(.*\))?;$', code) and '{' not in code and '}' not in code:
            add(re.match(r'\s*', code).group(0) + ';')
        m = re.match(r'^(.*\bif \()(.*)(\) ?\{?)$', code)
        if m:
            add(m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3))
            add(m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3))
    return sorted(set(out))


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, -9, '', 'timeout')


def attempt(k, m, top):
    f, i, new = m
    d = '%s/%s' % (W, top)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/verif/build')
    try:
        sh('git clone -q /repo %s/repo && cp -a check.py lib spec harness java known_findings.txt MANIFEST.json %s/verif/ && cp -a build/classes-* %s/verif/build/' % (d, d, d), cwd=V)
        p = d + '/repo/src/' + f
        text = open(p).read().split('\n')
        old, text[i] = text[i], new
        if not f.endswith('.i'):
            base = sh('g++ -std=c++11 -include iterator -include limits -O2 -ffast-math -S -o - -x c++ %s' % p)
        open(p, 'w').write('\n'.join(text))
        what = '%s:%d: %s  =>  %s' % (f, i + 1, old.strip(), new.strip())
        if not f.endswith(('.i', '.h', '.hh')):
            mut = sh('g++ -std=c++11 -include iterator -include limits -O2 -ffast-math -S -o - -x c++ %s' % p)
            if mut.returncode:
                return what, 'does not compile'
            strip = lambda s: re.sub(r'^\s*\.(file|ident|loc).*$|__PRETTY.*|movl\s+\$\d+, %edx', '', s, flags=re.M)
            if strip(base.stdout) == strip(mut.stdout):
                return what, 'same code'
        b = sh('make -j4 CXX="g++ -include iterator -include limits" all', cwd=d + '/repo')
        if b.returncode:
            return what, 'does not compile'
        if sh('timeout 60 python3 -m pytest -q -p no:cacheprovider tests', cwd=d + '/repo').returncode:
            return what, 'fails the tests'
        sh('git clean -fdxq', cwd=d + '/repo')
        notes = []
        for c in CHECKS[f].split():
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=d + '/repo')
            r = sh('python3 check.py %s' % c, cwd=d + '/verif', env=env)
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                return what, 'caught by ' + c
            if r.returncode:
                notes.append('%s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr)[-200:].replace('\n', ' ')))
        return what, 'SURVIVED ' + '; '.join(notes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    files = sys.argv[4:] or list(CHECKS)
    files = [f for f in files if os.path.exists('/repo/src/' + f)]
    if sys.argv[1] == 'list':
        for f in files:
            print(f, len(mutants(f)))
        sys.exit()
    ms = [m for f in files for m in mutants(f)]
    random.Random(int(sys.argv[2])).shuffle(ms)
    from concurrent.futures import ThreadPoolExecutor, as_completed
    import threading, queue
    slots = queue.Queue()
    for s in range(int(os.environ.get('SLOTS', 3))):
        slots.put('slot%d-%d' % (os.getpid(), s))

    def one(km):
        s = slots.get()
        try:
            return attempt(km[0], km[1], s)
        finally:
            slots.put(s)
    with ThreadPoolExecutor(slots.qsize()) as ex:
        for fut in as_completed([ex.submit(one, km) for km in enumerate(ms[int(os.environ.get("FROM", 0)):int(sys.argv[3])])]):
            print(*fut.result(), sep='   |   ', flush=True)
