#!/usr/bin/env python3
"""Make and try planted bugs.

  seedlib.py confirm ID...   in a scratch copy of /repo: the demonstration passes, the patch applies, builds,
                             passes the tests, and the demonstration fails
  seedlib.py try ID [C..]    run the quick checks named (default: the bug's own) on a scratch copy with the patch
  seedlib.py quiet DIR [C..] every behaviour-preserving DIR/*.patch against all checks: none may report anything
  seedlib.py tryall          every bug against its own check, and the table of DESIGN.md
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(V, "seeded")

def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")

def make(sid, prop, needs, breaks, edits, demo, extra=()):
    """edits: [(file, old, new)]; demo: text of demo.py; creates seeded/<sid>/ (patch made with git diff)."""
    d = os.path.join(SEEDS, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/w/mk"
    shutil.rmtree(w, ignore_errors=True)
    sh("git clone -q /repo %s" % w)
    for f, old, new in edits:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %r occurs %d times in %s" % (sid, old, t.count(old), f))
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=w).stdout)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)

HEAD = '''import glob, math, os, subprocess, sys, tempfile
from fractions import Fraction as F
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.abspath(glob.glob("_build/py/lib.*")[0]))

def check(ok, what):
    print(("ok: " if ok else "FAILED: ") + what)
    if not ok:
        sys.exit(1)

def exact(b, B):
    """Pr[b_i <= X_(i) <= B_i], by Noe's recursion over rationals."""
    n = len(b)
    b = [F(x) for x in b]; B = [F(x) for x in B]
    pts = sorted(set([F(0), F(1)] + b + B))
    cur = {0: F(1)}       # number of points so far -> probability weight
    for u, v in zip(pts, pts[1:]):
        nxt = {}
        for k, w in cur.items():
            for m in range(0, n - k + 1):
                j = k + m
                # at v: those with B_i <= v must have arrived, those with b_i >= v may not have
                if j < sum(1 for x in B if x <= v) and v < 1: continue
                if j > sum(1 for x in b if x < v) : continue
                nxt[j] = nxt.get(j, 0) + w * (v - u) ** m / math.factorial(m)
        cur = nxt
    return float(cur.get(n, F(0)) * math.factorial(n))

def run(*cmd):
    return subprocess.run(list(cmd), capture_output=True, text=True, timeout=250)

def compile_and_run(source, objects):
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "demo.cc")
        open(src, "w").write(source)
        exe = os.path.join(d, "demo")
        r = subprocess.run(["g++", "-O1", "-include", "iterator", "-include", "limits", "-Isrc", src, "-o", exe]
                           + ["build/%s.o" % o for o in objects] + ["-lfftw3", "-lm"], capture_output=True, text=True)
        if r.returncode:
            print(r.stderr); sys.exit(0)
        return subprocess.run([exe], capture_output=True, text=True, timeout=250)

def with_file(text, *cmd):
    """Runs cmd with {} replaced by the name of a scratch file holding text."""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "bounds.txt")
        open(p, "w").write(text)
        return run(*[c.replace("{}", p) for c in cmd])

'''

def confirm(sid):
    d = os.path.join(SEEDS, sid)
    w = "/tmp/w/" + sid
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    lay = "/tmp/w/demo-" + sid
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(d, lay)
    sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh" % (w, lay))
    try:
        r = sh("bash %s/b.sh" % lay)
        if r.returncode: return "unpatched build fails " + r.stderr[-500:]
        r = sh("bash %s/demo.sh" % lay, cwd=w, timeout=300)
        if r.returncode: return "demo fails unpatched: " + r.stdout[-300:] + r.stderr[-500:]
        r = sh("git apply %s/patch.diff" % lay, cwd=w)
        if r.returncode: return "does not apply " + r.stderr
        r = sh("bash %s/b.sh" % lay)
        if r.returncode: return "patched build fails " + r.stderr[-1500:]
        r = sh("python3 -m pytest -q -p no:cacheprovider tests", cwd=w)
        if r.returncode: return "tests fail " + r.stdout[-800:]
        r = sh("bash %s/demo.sh" % lay, cwd=w, timeout=300)
        if r.returncode == 0: return "demo passes with the patch " + r.stdout[-300:]
        return "CONFIRMED (%s)" % (r.stdout.strip().splitlines() or [r.stderr[-200:]])[-1][:150]
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(lay, ignore_errors=True)

def attempt(sid, props=None, patch=None):
    """Runs the quick checks on a scratch copy of /repo with the patch, from a scratch copy of /verif."""
    if patch is None:
        d = os.path.join(SEEDS, sid)
        props = props or [json.load(open(d + "/meta.json"))["property"]]
        patch = d + "/patch.diff"
    top = "/tmp/w/try-%s-%d" % (sid, os.getpid())
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + "/verif/build")
    out = {}
    try:
        sh("git clone -q /repo %s/repo && cp -a check.py lib spec harness java known_findings.txt MANIFEST.json %s/verif/ && cp -a build/classes-* %s/verif/build/"
           % (top, top, top), cwd=V)
        r = sh("git apply %s" % patch, cwd=top + "/repo")
        if r.returncode: raise SystemExit(sid + " " + r.stderr)
        for p in props:
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=top + "/repo")
            try:
                r = sh("python3 check.py %s" % p, cwd=top + "/verif", env=env)
            except subprocess.TimeoutExpired:
                out[p] = (-1, False, "900 s ran out"); continue
            v = [l for l in r.stdout.splitlines() if "rejected: " in l]
            out[p] = (r.returncode, "VIOLATION property=" + p in r.stdout,
                      (r.stdout + r.stderr)[-900:] if r.returncode not in (0, 1) else (v or [""])[0].strip()[:260])
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return out

def several(jobs, n=3):
    """jobs: (sid, props, patch); prints what happened to each."""
    from concurrent.futures import ThreadPoolExecutor, as_completed
    with ThreadPoolExecutor(n) as ex:
        fs = {ex.submit(attempt, *j): j[0] for j in jobs}
        for f in as_completed(fs):
            for p, (rc, v, line) in f.result().items():
                print(fs[f], p, "CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "rc=%d" % rc, line, flush=True)

if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == "confirm":
        for s in rest or sorted(os.listdir(SEEDS)):
            print(s, confirm(s), flush=True)
    elif cmd == "try":
        props = [x for x in rest if re.fullmatch(r"C\d\d", x)]
        several([(s, props or None, None) for s in rest if s not in props])
    elif cmd == "tryall":
        several([(s, None, None) for s in sorted(os.listdir(SEEDS))])
    elif cmd == "quiet":            # behaviour-preserving patches: quiet DIR [Cxx...]
        allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
        claimed = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        props = [x for x in rest[1:]] or [p for p in allp if p in claimed]
        several([(f[:-6], props, os.path.join(rest[0], f)) for f in sorted(os.listdir(rest[0])) if f.endswith(".patch")], 2)
