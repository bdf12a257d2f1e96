"""Runs one check: generates cases, drives the real code, lets the check's
oracle judge every execution, and writes the evidence.

A check module (checks/cXX.py) provides
  ID, RULE, TECHNIQUE, LEVEL_NOTE
  COUNT = {'quick': n, 'thorough': n}
  fixed()             -> list of cases run on every tier (boundary cases, past defects)
  make(rng, i, tier)  -> one generated case (JSON-able)
  judge(case, obs)    -> None, or a message saying how the execution broke the property
and optionally
  REQUIRED            counters every run must have reached for it to mean anything
  WORKERS             number of worker processes
  setup(), ASSUMPTIONS, size(case)
"""
import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, VERIF)

from vlib import real  # noqa: E402

CPU_LIMIT = 60.0        # seconds of CPU time for a single case; a typical one takes 10 ms
BUDGET = {'quick': 240, 'thorough': 840}   # wall seconds, a safety net: counts decide


class TooLong(Exception):
    pass


class Observer:
    """What the monitors saw."""

    def __init__(self):
        self.counts = {}
        self.keys = set()
        self.maxima = {}
        self._nontrivial = False

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def high(self, name, value):
        if value > self.maxima.get(name, float('-inf')):
            self.maxima[name] = value

    def nontrivial(self, yes=True):
        if yes:
            self._nontrivial = True


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def evaluate(mod, case, obs):
    """-> None or message"""
    obs._nontrivial = False

    def on_alarm(signum, frame):
        raise TooLong()
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    try:
        message = mod.judge(case, obs)
    except real.RealError as e:
        if isinstance(e.exc, TooLong):
            message = 'did not finish within %g s of CPU time' % CPU_LIMIT
        else:
            message = 'the rendering raised %s' % e
    except TooLong:
        message = 'did not finish within %g s of CPU time' % CPU_LIMIT
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    obs.count('cases')
    if obs._nontrivial:
        obs.keys.add(hashlib.blake2b(canonical(case).encode(), digest_size=8).digest())
    return message


def case_for(mod, seed, i, tier):
    rng = random.Random('%s:%s:%s' % (seed, mod.ID, i))
    return mod.make(rng, i, tier)


def worker(mod, seed, tier, indices, deadline, stop, queue):
    faulthandler.enable()
    obs = Observer()
    try:
        if hasattr(mod, 'setup'):
            mod.setup()
        for i in indices:
            if stop.value or time.monotonic() > deadline:
                break
            case = case_for(mod, seed, i, tier)
            message = evaluate(mod, case, obs)
            if message:
                queue.put(('violation', i, case, message))
                stop.value = 1
                break
        if hasattr(mod, 'teardown'):
            mod.teardown()
        queue.put(('done', obs.counts, list(obs.keys), obs.maxima))
    except BaseException:
        stop.value = 1
        queue.put(('error', traceback.format_exc()))


def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def write_replay(mod, seed, index, case, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s-%s.json' % (mod.ID, seed, hashlib.blake2b(canonical(case).encode(), digest_size=4).hexdigest())
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(dict(property=mod.ID, seed=seed, index=index, message=message, case=case), f, indent=1)
    return path


def clip(x, n=600):
    s = x if isinstance(x, str) else canonical(x)
    return s if len(s) <= n else s[:n] + '...(%d characters)' % len(s)


def write_evidence(mod, tier, seed, obs, samples, violations, wall, extra):
    required = {k: {'at_least': n, 'seen': obs.counts.get(k, 0)} for k, n in getattr(mod, 'REQUIRED', {}).items()}
    coverage = dict(
        evaluations=obs.counts.get('cases', 0),
        distinct_nontrivial=len(obs.keys),
        rule=mod.RULE,
        samples=[clip(s) for s in samples[:8]],
        observed={k: v for k, v in sorted(obs.counts.items()) if k != 'cases'},
        maxima=dict(sorted(obs.maxima.items())),
        required=required,
    )
    coverage.update(extra)
    ev = dict(property=mod.ID, tier=tier, seed=seed, level='exploration', coverage=coverage,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--count', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    mod = importlib.import_module('checks.' + a.id.lower())
    start = time.monotonic()
    real.load()

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if hasattr(mod, 'setup'):
            mod.setup()
        message = evaluate(mod, r['case'], Observer())
        if message:
            print(message)
            print('VIOLATION property=%s replay=%s' % (mod.ID, a.replay))
            return 1
        print('the property held on this case')
        return 0

    obs = Observer()
    violations = []
    samples = []
    fixed = mod.fixed() if hasattr(mod, 'fixed') else []
    # known findings: shown while they last, never new ones
    for k in known_findings(mod.ID):
        o = Observer()
        if hasattr(mod, 'setup'):
            mod.setup()
        m = evaluate(mod, k['case'], o)
        obs.count('known findings rechecked')
        if m:
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
    count = a.count or mod.COUNT[tier]
    total = count + len(fixed)
    ctx = multiprocessing.get_context('fork')
    ncpu = len(os.sched_getaffinity(0))
    nworkers = max(1, min(a.workers or getattr(mod, 'WORKERS', 8), ncpu))
    real_make = mod.make

    def make(rng, i, t):
        return fixed[i] if i < len(fixed) else real_make(rng, i - len(fixed), t)
    mod.make = make
    stop = ctx.Value('i', 0)
    queue = ctx.Queue()
    deadline = start + BUDGET[tier]
    procs = [ctx.Process(target=worker, args=(mod, a.seed, tier, range(w, total, nworkers), deadline, stop, queue))
             for w in range(nworkers)]
    for p in procs:
        p.start()
    errors = []
    pending = len(procs)
    while pending:
        try:
            item = queue.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs):
                try:
                    item = queue.get(timeout=2)
                except Exception:
                    errors.append('a worker ended without reporting: exit codes %s' % [p.exitcode for p in procs])
                    break
            else:
                continue
        if item[0] == 'violation':
            violations.append(item[1:])
        elif item[0] == 'error':
            errors.append(item[1])
            pending -= 1
        else:
            pending -= 1
            for k, v in item[1].items():
                obs.count(k, v)
            obs.keys.update(item[2])
            for k, v in item[3].items():
                obs.high(k, v)
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    for i in list(range(min(2, len(fixed)))) + [len(fixed) + j for j in range(min(4, count))]:
        samples.append(case_for(mod, a.seed, i, tier))
    wall = time.monotonic() - start
    extra = {'fixed_cases': len(fixed), 'workers': nworkers, 'technique': mod.TECHNIQUE}
    write_evidence(mod, tier, a.seed, obs, samples, len(violations), wall, extra)

    if violations:
        violations.sort(key=lambda v: v[0])
        for i, case, message in violations[:1]:
            path = write_replay(mod, a.seed, i, case, message)
            print('case: ' + clip(case, 1500))
            print(clip(message, 3000))
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    if errors:
        print('ERROR in the check itself:\n' + errors[0], file=sys.stderr)
        return 2
    for k, n in getattr(mod, 'REQUIRED', {}).items():
        if obs.counts.get(k, 0) < n and not a.count:
            print('INCONCLUSIVE: %s seen %d times, needed %d' % (k, obs.counts.get(k, 0), n), file=sys.stderr)
            return 2
    print('%s %s: %d cases, %d distinct non-trivial, no violation, %.1f s' %
          (mod.ID, tier, obs.counts.get('cases', 0), len(obs.keys), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
