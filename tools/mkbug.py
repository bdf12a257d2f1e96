"""Builds seeded/<id>/ from a definition file: a Python file that sets BUGS = [dict(id, property, file, edits=[(old, new)],
demo, needs, breaks)]. Each bug is confirmed in a scratch copy of /repo: it builds, the stable tests pass, the demo exits 0
without it and non-zero with it, and the removed lines are lines of the original repository."""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
BASE = '1c4b757'
PY = '/opt/venv/bin/python'
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def make(b):
    tmp = tempfile.mkdtemp(prefix='mkbug.', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        edits = b['edits']
        for e in edits:
            f, old, new = ((b['file'],) + tuple(e)) if len(e) == 2 else e
            p = os.path.join(repo, 'gopher_render', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        # removed lines have to be original ones
        cur, orig, ln = None, 0, 0
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                blame = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', cur], cwd=repo, capture_output=True, text=True).stdout.splitlines()
            elif line.startswith('@@'):
                ln = int(re.match(r'@@ -(\d+)', line).group(1))
            elif line.startswith('-') and not line.startswith('---'):
                if '^' + BASE in blame[ln - 1][:12]:
                    orig += 1
                else:
                    pass
                ln += 1
            elif line.startswith(' '):
                ln += 1
        extra = os.environ.get('MKBUG_EXTRA')    # a folder for bugs that only change lines of own commits, and so do not count
        if not orig and not extra:
            return 'changes no original line'
        d = os.path.join(tmp, 'seed')
        os.mkdir(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + b['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# exit 0: the property held; run in /repo\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, env=ENV, timeout=250)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-400:]
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, capture_output=True, text=True, env=ENV, timeout=250)
        if not r.returncode:
            return 'demo passes with the bug'
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = subprocess.run([PY, '/opt/vp/run_pytest.py', '-q', '-p', 'no:cacheprovider', '--assert=plain', '-rA', 'tests'], cwd=repo, capture_output=True, text=True, env=dict(ENV, PYTHONPATH=repo))
        norm = lambda x: x.replace('/', '.').replace('.py::', '.').replace('::', '.')
        passed = {norm(l.split()[1]) for l in r.stdout.splitlines() if l.startswith('PASSED')}
        bad = {norm(x) for x in stable} - passed
        if bad:
            return 'breaks %d tests: %s' % (len(bad), sorted(bad)[:3])
        dest = os.path.join(os.path.join(HERE, 'seeded') if orig else extra, b['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        return ('OK  ' if orig else 'EXTRA ') + ' '.join(why)[:150]
    finally:
        shutil.rmtree(tmp)


for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    print(b['id'], make(b), flush=True)
