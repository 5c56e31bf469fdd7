# -*- coding: utf-8 -*-
"""Runner shared by all checks: sharded workload execution, monitors' verdicts,
evidence and replay files.

A check is a module in ``kmon.checks`` that defines

    ID         property id
    RULE       how cases are made and what makes one non-trivial
    COUNT      {'quick': n, 'thorough': n}
    gen(rng, i, tier)  -> case, a JSON-able dict (with the oracle's prediction)
    run(case, mon)     -> executes the real code under the monitor ``mon``
    MIN        {counter: minimum} below which the run is inconclusive
optionally
    fixed(tier)        -> list of cases that are always run
    probes()           -> list of known-finding probes (see known_findings.json)

Verdicts are three-valued: exit 0 held on everything observed, exit 1
violated (VIOLATION line), exit 2 inconclusive (monitor not reached, worker
lost, ...).
"""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .model import TooBig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KMON_REPO', '/repo')
PY = '/opt/venv/bin/python'
CASE_ALARM = 60


class CaseTimeout(BaseException):
    pass


class Monitor(object):
    """Collects what was observed; the oracle's verdicts go through here."""

    def __init__(self):
        self.counts = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.failures = []

    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, name, value):
        s = self.sets[name]
        if len(s) < 20000:
            s.add(value)

    def fail(self, what, **detail):
        self.failures.append(dict(what=what, **detail))

    def equal(self, what, want, got, **detail):
        self.counts['comparisons'] += 1
        if want != got:
            self.failures.append(dict(what=what, want=want, got=got, **detail))
            return False
        return True


def digest(obj):
    return hashlib.sha1(
        json.dumps(obj, sort_keys=True, default=repr).encode('utf-8')).hexdigest()[:16]


def rng_for(seed, check_id, i):
    return random.Random('%s/%s/%s' % (seed, check_id, i))


def import_kajiki():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import kajiki
    where = os.path.realpath(kajiki.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('kajiki imported from %s, not from %s' % (where, REPO))
    return kajiki


def load_check(check_id):
    return importlib.import_module('kmon.checks.' + check_id.lower())


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, case):
    """Run one case; returns its Monitor. Unexpected exceptions are failures."""
    mon = Monitor()
    hung = 0
    while True:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_ALARM)
        try:
            check.run(case, mon)
        except CaseTimeout:
            hung += 1
            if hung == 2:   # the same (millisecond-sized) case twice
                mon.fail('did not terminate within %d s, twice' % CASE_ALARM)
            else:
                mon = Monitor()
                continue
        except Exception as e:
            mon.fail('unexpected exception %s: %s' % (type(e).__name__, str(e)[:600]),
                     traceback=traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)
        return mon


def draw(check, rng, i, tier):
    while True:
        try:
            return check.gen(rng, i, tier)
        except TooBig:
            pass


def cases_for(check, tier, seed, shard, nshards):
    fixed = check.fixed(tier) if hasattr(check, 'fixed') else []
    n = check.COUNT[tier]
    scale = float(os.environ.get('KMON_SCALE', '1'))
    n = int(n * scale)
    for i, case in enumerate(fixed):
        if i % nshards == shard:
            yield 'fixed-%d' % i, case
    if hasattr(check, 'start'):
        check.start(tier)
    for i in range(shard, n, nshards):
        rng = rng_for(seed, check.ID, i)
        yield i, draw(check, rng, i, tier)


def worker(check_id, tier, seed, shard, nshards, out):
    import_kajiki()
    sys.setrecursionlimit(10000)
    check = load_check(check_id)
    total = Monitor()
    failures, samples, distinct = [], [], set()
    evaluations = 0
    # kajiki prints debugging noise in a few places; keep stdout for ourselves
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    for key, case in cases_for(check, tier, seed, shard, nshards):
        evaluations += 1
        mon = run_case(check, case)
        total.counts.update(mon.counts)
        for k, v in mon.sets.items():
            s = total.sets[k]
            if len(s) < 20000:
                s.update(v)
        if case.get('nontrivial', True):
            distinct.add(digest(case))
        if len(samples) < 2 and case.get('nontrivial', True):
            samples.append(case)
        if mon.failures:
            failures.append(dict(key=str(key), case=case, failures=mon.failures))
            if len(failures) >= 5 or 'did not terminate' in mon.failures[-1]['what']:
                break
    with open(out, 'w') as f:
        json.dump(dict(evaluations=evaluations, distinct=sorted(distinct),
                       counts=total.counts,
                       sets={k: sorted(map(str, v)) for k, v in total.sets.items()},
                       samples=samples, failures=failures), f, default=repr)


def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8',
               PYTHONPATH=VERIF, PYTHONIOENCODING='utf-8', TZ='UTC')
    return env


def known_findings(check_id):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == check_id]


def run_probes(check):
    """Known findings: fixed probes with the exact wrong observable recorded.

    Returns (lines to print, violations). A finding that no longer occurs as
    recorded, but shows the right behaviour, is silently accepted (repaired);
    any third behaviour is a violation.
    """
    lines, bad = [], []
    for k in known_findings(check.ID):
        mon = Monitor()
        try:
            got = check.probe(k['probe'])
        except Exception as e:
            got = 'raised %s' % type(e).__name__
        if got == k['observed']:
            lines.append('KNOWN-FINDING: property=%s %s' % (check.ID, k['what']))
        elif got == k['correct'] or (isinstance(k['correct'], list) and got in k['correct']):
            pass
        else:
            mon.fail('known-finding probe %r shows a new behaviour' % k['id'],
                     want=k['correct'], known=k['observed'], got=got)
            bad.append(dict(key='probe-' + k['id'], case=dict(probe=k['probe']),
                            failures=mon.failures))
    return lines, bad


def main(check_id, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    nshards = int(os.environ.get('KMON_JOBS', '8'))
    import_kajiki()
    check = load_check(check_id)
    tmp = tempfile.mkdtemp(prefix='kmon-%s-' % check_id)
    procs = []
    wall_limit = getattr(check, 'WALL', {'quick': 600, 'thorough': 3 * 3600})[tier]
    try:
        for shard in range(nshards):
            out = os.path.join(tmp, '%d.json' % shard)
            err = open(os.path.join(tmp, '%d.err' % shard), 'w')
            procs.append((out, err, subprocess.Popen(
                [PY, '-m', 'kmon', 'worker', check_id, tier, str(seed),
                 str(shard), str(nshards), out],
                env=child_env(), cwd=tmp, stdout=err, stderr=err)))
        results, lost = [], []
        for out, err, p in procs:
            try:
                p.wait(timeout=max(1, wall_limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                lost.append('worker exceeded %d s' % wall_limit)
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            elif p.returncode is not None:
                with open(err.name) as f:
                    lost.append('worker exit %s: %s' % (p.returncode, f.read()[-1500:]))
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        for fn in os.listdir(tmp):
            os.unlink(os.path.join(tmp, fn))
        os.rmdir(tmp)

    counts, sets, failures, samples, distinct = collections.Counter(), {}, [], [], set()
    evaluations = 0
    for r in results:
        evaluations += r['evaluations']
        counts.update(r['counts'])
        for k, v in r['sets'].items():
            sets.setdefault(k, set()).update(v)
        failures.extend(r['failures'])
        samples.extend(r['samples'])
        distinct.update(r['distinct'])
    lines, bad = run_probes(check) if hasattr(check, 'probe') else ([], [])
    failures.extend(bad)

    coverage = collections.OrderedDict()
    coverage['evaluations'] = evaluations
    coverage['distinct_nontrivial'] = len(distinct)
    coverage['rule'] = check.RULE
    samples.sort(key=lambda s: len(json.dumps(s, default=repr)))
    picked = samples[:1] + samples[len(samples) // 2:len(samples) // 2 + 1]
    coverage['samples'] = [json.loads(json.dumps(s, default=repr)) for s in picked]
    coverage['monitor_counts'] = dict(counts)
    coverage['distinct_observed'] = {k: len(v) for k, v in sets.items()}
    coverage['observed_values'] = {k: sorted(v)[:60] for k, v in sets.items() if len(v) <= 60}
    problems = list(lost)
    for k, minimum in getattr(check, 'MIN', {}).items():
        have = counts.get(k, 0) or len(sets.get(k, ()))
        if have < minimum:
            problems.append('monitor %r observed %d < %d' % (k, have, minimum))
    evidence = dict(property=check.ID, tier=tier, seed=seed, level='exploration',
                    coverage=coverage,
                    assumptions=getattr(check, 'ASSUMPTIONS', []),
                    wall_s=round(time.time() - t0, 2), violations=len(failures))
    if problems:
        evidence['coverage']['inconclusive'] = problems
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')

    for line in lines:
        print(line)
    if failures:
        failures.sort(key=lambda x: len(json.dumps(x['case'], default=repr)))
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for x in failures[:3]:
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (check.ID, digest(x['case'])))
            with open(path, 'w') as f:
                json.dump(dict(property=check.ID, tier=tier, seed=seed, **x), f,
                          indent=1, default=repr)
            for fl in x['failures'][:3]:
                print('  case %s: %s' % (x['key'], fl['what']))
                for k in ('want', 'got'):
                    if k in fl:
                        print('    %-5s %.600r' % (k, fl[k]))
            print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    print('%s %s seed=%d: held on %d cases (%d distinct non-trivial), %d comparisons, %.1f s'
          % (check.ID, tier, seed, evaluations, len(distinct), counts.get('comparisons', 0),
             time.time() - t0))
    if problems:
        for p in problems:
            print('INCONCLUSIVE: %s' % p[-700:])
            break
        return 2
    return 0


def replay(path):
    import_kajiki()
    with open(path) as f:
        data = json.load(f)
    check = load_check(data['property'])
    if 'probe' in data['case']:
        print(check.probe(data['case']['probe']))
        return 0
    mon = run_case(check, data['case'])
    print(json.dumps(data['case'], indent=1, default=repr))
    for fl in mon.failures:
        print('FAIL', fl['what'])
        for k in ('want', 'got', 'traceback'):
            if k in fl:
                print('  %s: %s' % (k, fl[k]))
    print('%d failures' % len(mon.failures))
    return 1 if mon.failures else 0
