"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import importlib
import json
import os
import sys

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, missing = [], []
for pid in ids:
    if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        missing.append(dict(property=pid, reason='its check is not written yet'))
        continue
    m = importlib.import_module('checks.' + pid.lower())
    assert m.ID == pid, pid
    checks.append(dict(property=pid, quick_cmd='bin/check %s --tier quick' % pid,
                       thorough_cmd='bin/check %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid,
                       technique=m.TECHNIQUE, level='exploration', level_note=m.LEVEL_NOTE))
out = dict(version=1, setup_cmd='true', checks=checks, not_applicable=missing,
           notes='No hooks in /repo: the monitors observe the public interface, caller-supplied renderers and the interpreter '
                 '(sys.monitoring, thread switching). bin/check imports the code from /repo\'s working tree and never uses cached bytecode.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not applicable')
