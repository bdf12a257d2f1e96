"""Confirms again every planted bug in seeded/ against the current /repo: applies, stable tests pass, demo 0 / non-zero."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
PY = '/opt/venv/bin/python'
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
norm = lambda x: x.replace('/', '.').replace('.py::', '.').replace('::', '.')


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=repo)
    r = subprocess.run([PY, '/opt/vp/run_pytest.py', '-q', '-p', 'no:cacheprovider', '--assert=plain', '-rA', 'tests'], cwd=repo, capture_output=True, text=True, env=env)
    passed = {norm(l.split()[1]) for l in r.stdout.splitlines() if l.startswith('PASSED')}
    return sorted({norm(x) for x in stable} - passed)


def one(b):
    tmp = tempfile.mkdtemp(prefix='recheck.', dir='/tmp')
    try:
        repo, d = os.path.join(tmp, 'repo'), os.path.join(tmp, 'seed')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(os.path.join(HERE, 'seeded', b), d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        if subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo, capture_output=True).returncode:
            return b, 'does not apply'
        if subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, env=env, timeout=290).returncode:
            return b, 'demo fails on the unchanged tree'
        if not subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, env=env, timeout=290).returncode:
            return b, 'demo passes with the bug'
        bad = tests(repo)
        return b, 'tests: %s' % bad[:3] if bad else None
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(6) as ex:
        for b, why in ex.map(one, ids):
            if why:
                print(b, why, flush=True)
    print(len(ids), 'confirmed')
