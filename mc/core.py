"""
Exploration engine shared by all checks.

A check module (mc/checks/<id>.py) defines

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    tasks(tier)            -> list of JSON-able task descriptors
    run_task(task, rec)    -> explores that part of the space exhaustively

Within a task every explored case is reported to the Recorder:

    rec.state(canonical)   a (hashable) state reached
    rec.step(n=1)          n transitions executed on the real code and compared
    rec.violation(key, detail)

Tasks are distributed over forked worker processes.  Everything a task does is
deterministic, so a violation is replayed by running its task again.
"""
import os
import sys
import json
import time
import hashlib
import traceback
import importlib
import multiprocessing as mp

VERIF = os.environ.get('VERIF_DIR', '/verif')
SCRATCH = os.environ.get('MC_SCRATCH', '/tmp')


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf8', 'replace'),
                                          digest_size=8).digest(), 'big')


class StopTask(Exception):
    pass


class Recorder:
    MAX_PER_TASK = int(os.environ.get('MC_MAXV', '8'))

    def __init__(self, task, only=None):
        self.task = task
        self.states = set()
        self.outcomes = set()
        self.steps = 0
        self.traces = 0
        self.rejected = 0
        self.violations = []
        self.samples = []
        self.counters = {}
        self.only = only
        self.known = load_findings(None)

    def state(self, canonical):
        self.states.add(h64(canonical))

    def outcome(self, o):
        self.outcomes.add(h64(o))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:600])

    def violation(self, key, detail=''):
        key = str(key)
        if self.only is not None and key != self.only:
            return
        v = {'key': key, 'detail': str(detail)[:4000], 'task': self.task}
        self.violations.append(v)
        unknown = [x for x in self.violations if not is_known(self.known, x)]
        if len(unknown) >= self.MAX_PER_TASK:
            raise StopTask()

    def result(self):
        return {'states': self.states, 'outcomes': self.outcomes,
                'steps': self.steps, 'traces': self.traces,
                'rejected': self.rejected, 'violations': self.violations,
                'samples': self.samples, 'counters': self.counters}


_FINDINGS = None


def load_findings(prop):
    """Known findings listed in /verif/known_findings.jsonl (read only)."""
    global _FINDINGS
    if _FINDINGS is None:
        _FINDINGS = []
        path = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith('{'):
                        _FINDINGS.append(json.loads(line))
    if prop is None:
        return _CURRENT_FINDINGS
    return [x for x in _FINDINGS if x['property'] == prop]


_CURRENT_FINDINGS = []


def is_known(findings, v):
    for f in findings:
        if v['key'] in f['keys']:
            return f
    return None


_MODULE = None


def _quiet_nimble():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    nimble.settings.set('logger', 'enableCrossValidationDeepLogging', 'False')
    return nimble


def _worker_init(modname):
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    d = os.path.join(SCRATCH, 'w%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def _run_one(args):
    modname, task, only = args
    mod = importlib.import_module(modname)
    rec = Recorder(task, only)
    t = time.time()
    try:
        mod.run_task(task, rec)
    except StopTask:
        pass
    except Exception:  # an exception the model does not allow
        tb = traceback.format_exc()
        try:
            rec.violation('unexpected-exception', tb)
        except StopTask:
            pass
    ret = rec.result()
    ret['time'] = time.time() - t
    ret['task'] = task
    return ret


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--replay')
    p.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '8')))
    p.add_argument('--profile', action='store_true')
    p.add_argument('--all', action='store_true',
                   help='do not stop at the first violations')
    a = p.parse_args(argv)
    import warnings
    warnings.simplefilter('ignore')
    modname = 'mc.checks.' + a.property
    import numpy
    numpy.seterr(all='ignore')
    _quiet_nimble()
    mod = importlib.import_module(modname)
    global _CURRENT_FINDINGS
    _CURRENT_FINDINGS = load_findings(a.property)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        _worker_init(modname)
        res = _run_one((modname, r['task'], r['key']))
        for v in res['violations'][:1]:
            print('REPRODUCED', v['key'])
            print(v['detail'])
        if not res['violations']:
            print('not reproduced')
        return 1 if res['violations'] else 0

    start = time.time()
    tasks = mod.tasks(a.tier)
    agg = {'states': set(), 'outcomes': set(), 'steps': 0, 'traces': 0,
           'rejected': 0, 'violations': [], 'samples': [], 'counters': {}}
    done = 0
    times = []
    stopped = False
    if hasattr(mod, 'prepare'):
        mod.prepare(a.tier)
    limit = float(os.environ.get('MC_DEADLINE',
                                 '840' if a.tier == 'quick' else '1e9'))
    ctx = mp.get_context('fork')
    nproc = max(1, min(a.jobs, len(tasks)))
    pool = ctx.Pool(nproc, initializer=_worker_init, initargs=(modname,),
                    maxtasksperchild=getattr(mod, 'MAXTASKS', None))
    try:
        it = pool.imap_unordered(_run_one, [(modname, t, None) for t in tasks])
        while done < len(tasks):
            left = limit - (time.time() - start)
            try:
                r = it.next(timeout=max(0.1, left))
            except StopIteration:
                break
            except mp.TimeoutError:
                stopped = True
                break
            done += 1
            times.append((r['time'], r['task']))
            agg['states'] |= r['states']
            agg['outcomes'] |= r['outcomes']
            for k in ('steps', 'traces', 'rejected'):
                agg[k] += r[k]
            for k, n in r['counters'].items():
                agg['counters'][k] = agg['counters'].get(k, 0) + n
            agg['violations'].extend(r['violations'])
            if len(agg['samples']) < 6:
                agg['samples'].extend(r['samples'][:2])
            if not a.all:
                unk = sum(1 for v in agg['violations']
                          if is_known(_CURRENT_FINDINGS, v) is None)
                if unk >= 40:
                    stopped = True
                    break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - start

    unknown, seen = [], {}
    for v in agg['violations']:
        f = is_known(_CURRENT_FINDINGS, v)
        if f is None:
            unknown.append(v)
        else:
            seen.setdefault(json.dumps(f['keys']), f)
    complete = not stopped and done == len(tasks)
    coverage = {
        'states': len(agg['states']),
        'transitions': agg['steps'],
        'traces_validated_against_impl': agg['traces'],
        'distinct_outcomes': len(agg['outcomes']),
        'rejected_calls_checked': agg['rejected'],
        'rule': mod.RULE,
        'samples': agg['samples'] or ['(none)'],
        'tasks': len(tasks), 'tasks_completed': done,
        'exhaustive': complete,
        'counters': agg['counters'],
    }
    ev = {'property': a.property, 'tier': a.tier, 'seed': seed,
          'level': mod.LEVEL, 'coverage': coverage,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': len(unknown)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for f in seen.values():
        print('KNOWN-FINDING: property=%s %s' % (a.property, f['what']))
    if a.profile:
        for t, k in sorted(times, key=lambda x: -x[0])[:15]:
            print('  %.1fs %s' % (t, json.dumps(k)[:150]))
        print('  cpu %.1f' % sum(t for t, _ in times))
    print('%s tier=%s states=%d transitions=%d traces=%d outcomes=%d rejected=%d '
          'tasks=%d/%d exhaustive=%s wall=%.1fs'
          % (a.property, a.tier, coverage['states'], agg['steps'], agg['traces'],
             len(agg['outcomes']), agg['rejected'], done, len(tasks), complete, wall))
    if os.environ.get('MC_GROUP'):
        import re
        groups = {}
        for v in unknown:
            last = v['key'].split(' ; ')[-1].split(' :: ')[-1].strip()
            k = (v['key'].split(' ')[0].split('/')[0], last[:14],
                 re.sub(r'[0-9.]+|expected.*', '#', v['detail'])[:int(os.environ['MC_GROUP'])])
            groups.setdefault(k, []).append(v)
        for k, vs in sorted(groups.items(), key=lambda x: -len(x[1])):
            vs.sort(key=lambda v: (len(v['key']), v['key']))
            print('== %d' % len(vs), k)
            print('      ', vs[0]['key'])
            print('      ', vs[0]['detail'].strip()[-700:].replace('\n', '\n       '))
        return 1
    if unknown:
        unknown.sort(key=lambda v: (len(v['key']), v['key']))
        out = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(out, exist_ok=True)
        groups = {}
        for v in unknown:
            groups.setdefault(v['key'], v)
        paths = []
        for i, v in enumerate(list(groups.values())[:20]):
            path = os.path.join(out, '%s-%d.json' % (a.property, i))
            with open(path, 'w') as f:
                json.dump({'property': a.property, 'key': v['key'],
                           'task': v['task'], 'detail': v['detail']}, f,
                          indent=1, default=str)
            paths.append(path)
        for i, v in enumerate(list(groups.values())[:60 if a.all else 20]):
            print('---', v['key'])
            print('   ', v['detail'].strip().replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (a.property, paths[0]))
        return 1
    if not complete:
        print('note: stopped by the time limit after %d of %d tasks' % (done, len(tasks)))
    return 0
