"""
Check runner: runs one property's workload against /repo's working tree, watched by that property's monitors.

    runner.py <PROPERTY> [quick|thorough] [--case N[,N..]] [--seed S] [--procs P] [--cases N] [--replay FILE]

Cases are numbered; case i of property P under seed S is a pure function of (P, S, i), so a replay file is just that
triple.  Workers are forked after cis is imported once from /repo.  Verdicts: exit 0 held on everything observed,
exit 1 (VIOLATION line) violated, exit 2 inconclusive (monitor not reached, watchdog fired, harness error).
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


class Trial(object):
    """What a case reports to.  `mark` counts an observed event, `seen` records a distinct non-trivial situation,
    `fail` records a violation (the case carries on unless stop=True)."""

    def __init__(self, prop, seed, index, tier, scratch):
        import numpy as np
        self.prop, self.seed, self.index, self.tier, self.scratch = prop, seed, index, tier, scratch
        self.events = collections.Counter()
        self.states = set()
        self.failures = []
        self.notes = []
        self.desc = None
        h = int(hashlib.sha256(prop.encode()).hexdigest()[:8], 16)
        self.rng = np.random.default_rng(np.random.SeedSequence([seed, h, index]))

    def mark(self, event, n=1):
        self.events[event] += int(n)

    def seen(self, *key):
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def describe(self, desc):
        self.desc = desc

    def fail(self, mech, detail='', stop=False, **info):
        self.failures.append(dict(mech=mech, detail=str(detail)[:2000],
                                  info={k: str(v)[:1500] for k, v in info.items()}))
        if stop:
            raise Violation(mech)

    def check(self, cond, mech, detail='', stop=False, **info):
        self.mark('oracle_decisions')
        if not cond:
            self.fail(mech, detail() if callable(detail) else detail, stop=stop, **info)
        return bool(cond)

    def path(self, name):
        d = os.path.join(self.scratch, 'c%d' % self.index)
        if not os.path.isdir(d):
            os.makedirs(d)
        return os.path.join(d, name)

    def cleanup(self):
        d = os.path.join(self.scratch, 'c%d' % self.index)
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)


def run_one(mod, prop, seed, index, tier, scratch, limit):
    t = Trial(prop, seed, index, tier, scratch)
    status = 'ok'

    def on_alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.case(t)
    except Violation:
        pass
    except CaseTimeout:
        status = 'timeout'
        t.notes.append('watchdog fired: ' + ''.join(traceback.format_exc()[-1500:]))
    except (SystemExit, Exception):
        tb = traceback.format_exc()
        # An exception whose innermost frames are in cis (or below it) escaped from code under test on a valid input;
        # one raised by the harness itself makes the case inconclusive, never a violation.
        frames = traceback.extract_tb(sys.exc_info()[2])
        in_cis = any(f.filename.startswith(REPO + os.sep) and '/cis/' in f.filename for f in frames)
        if in_cis:
            t.fail('unexpected-exception', '%s\ncase: %s' % (tb[-1800:], t.desc))
        else:
            status = 'error'
            t.notes.append(tb[-1800:])
    finally:
        signal.alarm(0)
        t.cleanup()
    return dict(index=index, status=status, events=dict(t.events), states=sorted(t.states), failures=t.failures,
                notes=t.notes, desc=t.desc)


def worker(mod, prop, seed, indices, tier, scratch, limit, deadline, outpath, logpath):
    fd = os.open(logpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    wdir = os.path.join(scratch, 'w%d' % os.getpid())
    os.makedirs(wdir)
    os.chdir(wdir)
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker(wdir)
    with open(outpath, 'w') as f:
        for i in indices:
            if time.time() > deadline:
                f.write(json.dumps(dict(index=i, status='not-run')) + '\n')
                continue
            os.ftruncate(1, 0)
            os.lseek(1, 0, os.SEEK_SET)
            r = run_one(mod, prop, seed, i, tier, scratch, limit)
            f.write(json.dumps(r, default=repr) + '\n')
            f.flush()


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--case')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--procs', type=int, default=int(os.environ.get('VERIF_PROCS') or 8))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        a.seed, a.case, a.tier = rp['seed'], str(rp['case']), rp['tier']
    scratch = tempfile.mkdtemp(prefix='cisverif-')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['TMPDIR'] = scratch
    os.environ['HOME'] = scratch
    tempfile.tempdir = scratch
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.dont_write_bytecode = True
    try:
        return main2(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main2(a, scratch, t0):
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import cis
    root = os.path.realpath(os.path.dirname(cis.__file__))
    if not root.startswith(os.path.realpath(REPO) + os.sep):
        print('INCONCLUSIVE: cis imported from %s, not from %s' % (root, REPO))
        return 2
    mod = importlib.import_module('checks.' + a.prop.lower())
    n = a.cases or mod.CASES[a.tier]
    only = None
    if a.case:
        only = [int(x) for x in a.case.split(',')]
    indices = only if only is not None else list(range(n))
    limit = getattr(mod, 'CASE_LIMIT', 150)
    budget = getattr(mod, 'BUDGET', {}).get(a.tier, 420 if a.tier == 'quick' else 3000)
    deadline = t0 + budget
    if hasattr(mod, 'preload'):
        mod.preload()
    procs = max(1, min(a.procs, len(indices)))
    pids = []
    for w in range(procs):
        out, log = os.path.join(scratch, 'out%d' % w), os.path.join(scratch, 'log%d' % w)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, a.prop, a.seed, indices[w::procs], a.tier, scratch, limit, deadline, out, log)
            except BaseException:
                with open(out, 'a') as f:
                    f.write(json.dumps(dict(index=-1, status='error', notes=[traceback.format_exc()])) + '\n')
                code = 3
            os._exit(code)
        pids.append((pid, out))
    crashed = []
    for pid, out in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            crashed.append((pid, st))
    results = []
    for pid, out in pids:
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        results.append(json.loads(line))
                    except ValueError:
                        pass
    results.sort(key=lambda r: r['index'])
    return report(a, mod, results, crashed, t0, len(indices), only is not None)


def report(a, mod, results, crashed, t0, planned, partial):
    events = collections.Counter()
    states = set()
    samples = []
    fails, errors, ran = [], [], 0
    known = [k for k in load_known() if k['property'] == a.prop]
    known_hit = collections.Counter()
    statuses = collections.Counter(r['status'] for r in results)
    for r in results:
        if r['status'] in ('error', 'timeout'):
            errors.append(r)
        if r['status'] == 'not-run' or r['index'] < 0:
            continue
        ran += 1
        events.update(r.get('events', {}))
        states.update(r.get('states', []))
        if r.get('desc') is not None and len(samples) < 5:
            samples.append(dict(case=r['index'], what=r['desc']))
        for f in r.get('failures', []):
            k = next((k for k in known if k['mech'] == f['mech']), None)
            if k is not None:
                known_hit[k['mech']] += 1
            else:
                fails.append((r['index'], f))
    inconclusive = []
    if crashed:
        inconclusive.append('worker crashed: %s' % crashed)
    if errors:
        inconclusive.append('%d case(s) errored or timed out' % len(errors))
    if not partial:
        for ev, least in getattr(mod, 'REQUIRED', {}).items():
            if events[ev] < least:
                inconclusive.append('monitor event %r observed %d times, needs %d' % (ev, events[ev], least))
        if ran < max(1, int(0.2 * planned)):
            inconclusive.append('only %d of %d cases ran in the time allowed' % (ran, planned))
    wall = time.time() - t0
    for k in known:
        if known_hit[k['mech']] or not partial:
            print('KNOWN-FINDING: property=%s %s (observed %d times in this run)' %
                  (a.prop, k['what'], known_hit[k['mech']]))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    mechs = collections.OrderedDict()
    for i, f in fails:
        mechs.setdefault(f['mech'], []).append((i, f))
    if not partial:
        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
                  coverage=dict(evaluations=ran, distinct_nontrivial=len(states), rule=mod.RULE,
                                samples=samples or ['none'], planned_cases=planned,
                                monitor_events=dict(sorted(events.items())),
                                case_statuses=dict(statuses),
                                known_findings_observed=dict(known_hit)),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []),
                  wall_s=round(wall, 2), violations=len(fails))
        with open(os.path.join(evdir, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for e in errors[:5]:
        print('CASE %s %s\n%s' % (e['index'], e['status'], '\n'.join(e.get('notes', []))))
    if fails:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        descs = {r['index']: r.get('desc') for r in results}
        for m, lst in mechs.items():
            i, f = lst[0]
            path = os.path.join(rdir, '%s-s%d-c%d.json' % (a.prop, a.seed, i))
            with open(path, 'w') as fh:
                json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, case=i, mech=m, failure=f, desc=descs.get(i),
                               cmd='bash run.sh %s %s --seed %d --case %d' % (a.prop, a.tier, a.seed, i)), fh, indent=1)
            print('  %s: %d failing observation(s), first in case %d: %s %s' %
                  (m, len(lst), i, f['detail'], json.dumps(f['info']) if f['info'] else ''))
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if inconclusive:
        print('INCONCLUSIVE property=%s: %s' % (a.prop, '; '.join(inconclusive)))
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d distinct=%d decisions=%d wall=%.1fs' %
          (a.prop, a.tier, a.seed, ran, len(states), events['oracle_decisions'], wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
