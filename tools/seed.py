"""Try planted changes in scratch copies of /repo.

  python3 tools/seed.py new ID PROPERTY FILE      edits on stdin (see below): writes seeded/ID/patch.diff
  python3 tools/seed.py verify ID...              tests pass, demo passes clean and fails patched
  python3 tools/seed.py check ID... [-- C01 C02]  run checks (default: the property of meta.json) on the patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')


def scratch(patch=None):
    d = tempfile.mkdtemp(prefix='seed')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    if patch:
        subprocess.check_call(['git', 'apply', patch], cwd=r)
    return d, r


def tests(r):
    x = os.path.join(r, '..', 'junit.xml')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONPATH='/opt/vp/plugins')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300',
                    '--continue-on-collection-errors', '--doctest-modules', '--ignore=concept_formation/examples',
                    '--ignore=concept_formation/visualization_files', '-o', 'junit_family=xunit2', '--junitxml=' + x,
                    'concept_formation'], cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = os.path.join(r, '..', 'out.json')
    subprocess.run(['python3', '/opt/vp/results.py', o, 'junit:' + x], stdout=subprocess.DEVNULL)
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    res = json.load(open(o))
    ok = set(res.get('passed', res if isinstance(res, list) else []))
    return [t for t in st if t not in ok]


def demo(i, r):
    # as in the final check: the folder lies elsewhere
    d = tempfile.mkdtemp(prefix='demo')
    try:
        for f in os.listdir(os.path.join(SEED, i)):
            if f not in ('patch.diff', 'meta.json'):
                shutil.copy(os.path.join(SEED, i, f), d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=r, env=env, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr).strip().splitlines()[-1:]
    finally:
        shutil.rmtree(d)


def verify(i):
    d, r = scratch()
    try:
        c = demo(i, r)
        subprocess.check_call(['git', 'apply', os.path.join(SEED, i, 'patch.diff')], cwd=r)
        t = tests(r)
        b = demo(i, r)
    finally:
        shutil.rmtree(d)
    good = c[0] == 0 and b[0] != 0 and not t
    return '%-6s %s clean=%s patched=%s failing tests=%s' % (i, 'OK ' if good else 'BAD', c, b, t[:3])


def check(i, pids):
    d, r = scratch(os.path.join(SEED, i, 'patch.diff'))
    out = []
    try:
        meta = json.load(open(os.path.join(SEED, i, 'meta.json')))
        for p in pids or [meta['property']]:
            env = dict(os.environ, SA_REPO=r, SA_OUT=os.path.join(d, 'out'))
            q = subprocess.run([sys.executable, '-m', 'sa.run', p], cwd=HERE, env=env, capture_output=True, text=True)
            last = [l for l in q.stdout.splitlines() if 'VIOLATION' not in l][:1]
            out.append('%-8s %s exit=%d %s' % (i, p, q.returncode, last[0][:200] if last else q.stderr[-300:]))
    finally:
        shutil.rmtree(d)
    return '\n'.join(out)


def main(a):
    cmd, ids = a[0], a[1:]
    pids = []
    if '--' in ids:
        k = ids.index('--')
        ids, pids = ids[:k], ids[k + 1:]
    if not ids:
        ids = sorted(os.listdir(SEED))
    if cmd == 'verify':
        with ThreadPoolExecutor(4) as ex:
            for l in ex.map(verify, ids):
                print(l, flush=True)
    elif cmd == 'check':
        for i in ids:
            print(check(i, pids), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
