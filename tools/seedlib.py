"""make and confirm planted bugs in scratch copies of /repo (never in /repo)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SH = '''#!/bin/bash
# run in the repository root; exit 0: behaves, nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/mpl-demo}
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    return d, r


def demo(path, repo):
    p = subprocess.run(['bash', os.path.join(path, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def mk(sid, prop, edits, code, needs, breaks):
    """edits: [(file, old, new)]; old must occur exactly once (or give (file, old, new, nth))"""
    path = os.path.join(SEEDED, sid)
    os.makedirs(path, exist_ok=True)
    open(os.path.join(path, 'demo.py'), 'w').write(code.lstrip('\n'))
    open(os.path.join(path, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(path, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(path, 'meta.json'), 'w'), indent=1)
    d, r = copy()
    try:
        c0, o0 = demo(path, r)
        for e in edits:
            f = os.path.join(r, e[0])
            s = open(f, newline='').read()
            crlf = '\r\n' in s
            old, new = e[1], e[2]
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            n = s.count(old)
            if len(e) == 3:
                assert n == 1, (sid, e[0], 'occurs %d times' % n, e[1])
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                assert len(parts) > e[3] + 1, (sid, n)
                s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            open(f, 'w', newline='').write(s)
        diff = subprocess.run(['git', '-C', r, 'diff', '--no-color'], capture_output=True).stdout
        open(os.path.join(path, 'patch.diff'), 'wb').write(diff)
        c1, o1 = demo(path, r)
    finally:
        shutil.rmtree(d)
    ok = c0 == 0 and c1 != 0
    print(sid, 'OK' if ok else 'BAD', 'unpatched %d' % c0, 'patched %d' % c1, '' if ok else (o0 + '\n---\n' + o1), '|', o1.strip().splitlines()[-1] if o1.strip() else '')
    return ok


def tests(sid):
    """stable tests with the patch, in a scratch copy"""
    d, r = copy()
    try:
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(SEEDED, sid, 'patch.diff')])
        sh = open('/opt/vp/test.sh').read().replace('/opt/vp-cache/reports', d + '/reports').replace('/opt/vp-cache/mpl', d + '/mpl')
        sh = sh.replace('/repo', r)
        open(d + '/test.sh', 'w').write(sh)
        subprocess.run(['bash', d + '/test.sh', d + '/out.json'], capture_output=True)
        out = json.load(open(d + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(out.get('passed', out if isinstance(out, list) else []))
        missing = [t for t in base if t not in passed]
        return sid, missing, list(out)[:5]
    finally:
        shutil.rmtree(d)


def check(sid, timeout=900):
    """runs the property's quick check against a scratch copy with the patch"""
    prop = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))['property']
    d, r = copy()
    try:
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(SEEDED, sid, 'patch.diff')])
        v = os.path.join(d, 'verif')
        subprocess.check_call(['cp', '-a', os.path.dirname(SEEDED), v])
        p = subprocess.run([os.path.join(v, 'run_check.py'), prop], cwd=v, env=dict(os.environ, VP_REPO=r, VERIF_SEED='1'),
                           capture_output=True, text=True, timeout=timeout)
        return sid, p.returncode, [l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'check ' in l or 'INCON' in l or 'UNDEC' in l or 'wall' in l][:6]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    what, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(SEEDED))
    ex = [i for i in ids if '*' in i]
    for i in ex:
        import fnmatch
        ids = [k for k in ids if k != i] + fnmatch.filter(sorted(os.listdir(SEEDED)), i)
    if what == 'tests':
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(tests, ids):
                print(r[0], 'tests pass' if not r[1] else 'FAIL %s' % r[1], flush=True)
    else:
        for i in ids:
            print(check(i), flush=True)
