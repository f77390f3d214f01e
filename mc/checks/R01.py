"""R01: every random call is a function of the random state, and only random calls use it."""
import itertools
import nimble
from mc import reads, tables, mutators
from mc.core import h64
from mc.model import Tab, approx
from mc.obs import TYPES, observe, observe_full
from mc.variants import MUTABLE, VIEWS, applicable, make
from mc.checks.R02 import digest

PROPERTY = 'R01'
LEVEL = 'model_checking'
RULE = ('every random call of the alphabet (permute, structural calls with number and randomize, trainAndTestSets, random.data with all parameter '
        'combinations) x every table x storage type x hidden-state variant x starting random state: same state gives same result and same end '
        'state in every representation, the result is of the allowed form, and over all seeds of the range every allowed outcome appears; '
        'every other call of the read and change catalogues leaves the random state as it is')
ASSUMPTIONS = ['seeds range over a fixed finite set', 'learning calls are treated in M01']
SEEDS = 150


def setstate(s):
    seed, draws = s
    nimble.random.setSeed(seed, useLog=False)
    for _ in range(draws):
        nimble.random.pythonRandom.random()
        nimble.random.numpyRandom.random_sample()


def rows_of(o):
    c = observe(o, approx)
    return [(pn, r) for pn, r in zip(c[2], c[1])]


def cols_of(o):
    c = observe(o, approx)
    return [(fn, tuple(r[j] for r in c[1])) for j, fn in enumerate(c[3])]


def struct(axis, call, k):
    def f(o):
        ax = getattr(o, axis)
        r = getattr(ax, call)(number=k, randomize=True, useLog=False)
        return (None if r is None else reads.notype(reads.canon(r)), observe(o, approx))
    return f


def perm(axis):
    def f(o):
        getattr(o, axis).permute(useLog=False)
        return observe(o, approx)
    return f


def tts(frac, labels):
    return lambda o: [reads.notype(reads.canon(x)) for x in o.trainAndTestSets(frac, labels=labels, useLog=False)]


def ops(n, w):
    """name -> (function, changes the object)"""
    out = {}
    for axis, m in (('points', n), ('features', w)):
        if m:
            out[axis + ' permute'] = (perm(axis), True)
        for k in range(1, m + 1):
            for call in ('copy', 'extract', 'delete', 'retain'):
                out['%s %s %d' % (axis, call, k)] = (struct(axis, call, k), call != 'copy')
    for frac in (0.3, 0.5, 1):
        out['tts %s' % frac] = (tts(frac, None), False)
        if w > 1:
            out['tts lab %s' % frac] = (tts(frac, 0), False)
    return out


STATES = [(0, 0), (1, 0), (1, 1), (7, 2)]


def tasks(tier):
    out = []
    for kind in ('numeric', 'mixed'):
        for i, t in enumerate(getattr(tables, kind)()):
            out.append(['same', kind, i, tier])
            if t.np <= 4:
                out.append(['reach', kind, i, tier])
            for rtype in TYPES:
                if kind == 'mixed' and rtype == 'Sparse':
                    continue
                out.append(['pure', kind, i, rtype])
    shapes = [(1, 1), (1, 3), (2, 2), (3, 2), (4, 5)] + ([(10, 10)] if tier == 'thorough' else [])
    for s in shapes:
        out.append(['data', list(s), tier])
    out.append(['args'])
    return out


def run_task(task, rec):
    globals()['t_' + task[0]](rec, *task[1:])


def t_same(rec, kind, i, tier):
    t = getattr(tables, kind)()[i]
    for st in STATES:
        for name, (f, changes) in ops(t.np, t.nf).items():
            want = None
            for rtype in TYPES:
                if kind == 'mixed' and rtype == 'Sparse':
                    continue
                vs = MUTABLE if changes else MUTABLE + VIEWS
                for v in vs:
                    if not applicable(t, rtype, v):
                        continue
                    key = '%s on %r as %s %s from %s' % (name, t, rtype, v, st)
                    for ctx in (('plain', 'alt') if v == 'fresh' else ('plain',)):
                        o = make(t, rtype, v)
                        if ctx == 'plain':
                            setstate(st)
                            before = digest()
                            got = (attempt(f, o), digest())
                            if got[1] == before and ('permute' in name and len(t.rows if name.startswith('points') else t.fn) > 1):
                                rec.violation(key, 'used no randomness')
                        else:
                            setstate((99, 0))
                            d = digest()
                            with nimble.random.alternateControl(st[0], useLog=False):
                                for _ in range(st[1]):
                                    nimble.random.pythonRandom.random()
                                    nimble.random.numpyRandom.random_sample()
                                got = (attempt(f, o), digest())
                            if digest() != d:
                                rec.violation(key, 'state outside the alternateControl block changed')
                        rec.step()
                        rec.state((st, name, rtype, v, ctx))
                        rec.outcome(got[0])
                        if want is None:
                            want = got
                        elif got != want:
                            rec.violation(key + ' ' + ctx, 'result %r\nin the first representation %r%s'
                                          % (got[0], want[0], '' if got[1] == want[1] else '\nend state differs'))
                        rec.trace()


def attempt(f, o):
    try:
        return f(o)
    except Exception as e:  # noqa
        return ('raised', type(e).__name__)


def t_reach(rec, kind, i, tier):
    """Every allowed outcome, and no other, appears over the seeds."""
    t = getattr(tables, kind)()[i]
    # distinct values so that outcomes can be told apart
    t = Tab([[10 * r + c + 1 for c in range(t.nf)] for r in range(t.np)], t.pn, t.fn)
    R = list(zip(t.pn, [tuple(map(approx, r)) for r in t.rows]))
    C = [(fn, tuple(approx(r[j]) for r in t.rows)) for j, fn in enumerate(t.fn)]
    types = TYPES if tier == 'thorough' else ['List', 'Sparse']
    for rtype in types:
        for axis, items, get in (('points', R, rows_of), ('features', C, cols_of)):
            if len(items) > 4:
                continue
            m = len(items)
            seen = set()
            for s in range(SEEDS if m < 4 else 2 * SEEDS):
                nimble.random.setSeed(s, useLog=False)
                o = make(t, rtype, 'fresh')
                getattr(o, axis).permute(useLog=False)
                rec.step()
                got = get(o)
                if sorted(got, key=repr) != sorted(items, key=repr):
                    rec.violation('%s permute of %r as %s seed %d' % (axis, t, rtype, s), 'not a permutation: %r' % (got,))
                    continue
                seen.add(tuple(items.index(x) for x in got))
            rec.state((rtype, axis, 'permute'))
            miss = set(itertools.permutations(range(m))) - seen
            if miss:
                rec.violation('%s permute of %r as %s' % (axis, t, rtype), 'orders never produced by seeds: %r' % sorted(miss))
            for call in ('copy', 'extract', 'delete', 'retain', 'count'):
                for k in range(1, m + 1):
                    if call == 'count':
                        continue
                    seen = set()
                    for s in range(SEEDS):
                        nimble.random.setSeed(s, useLog=False)
                        o = make(t, rtype, 'fresh')
                        r = getattr(getattr(o, axis), call)(number=k, randomize=True, useLog=False)
                        rec.step()
                        what = '%s %s number=%d of %r as %s seed %d' % (axis, call, k, t, rtype, s)
                        left = get(o) if o.shape[0] and o.shape[1] else []
                        taken = get(r) if r is not None else None
                        if call == 'retain':
                            taken, left = left, None
                        elif call == 'delete':
                            taken = [x for x in items if x not in left]
                        if call == 'copy':
                            if left != items:
                                rec.violation(what, 'the object changed')
                            left = None
                        if len(taken) != k or len(set(taken)) != k or any(x not in items for x in taken):
                            rec.violation(what, 'selected %r' % (taken,))
                            continue
                        if left is not None and left != [x for x in items if x not in taken]:
                            rec.violation(what, 'left %r' % (left,))
                        seen.add(frozenset(items.index(x) for x in taken))
                    rec.state((rtype, axis, call, k))
                    miss = set(map(frozenset, itertools.combinations(range(m), k))) - seen
                    if miss:
                        rec.violation('%s %s number=%d of %r as %s' % (axis, call, k, t, rtype), 'never selected: %r' % sorted(map(sorted, miss)))
        rec.trace()


RANDOMNAMES = {'points.permute random'}


def t_pure(rec, kind, i, rtype):
    """Calls that are not random do not consume randomness."""
    t = getattr(tables, kind)()[i]
    nimble.random.setSeed(3, useLog=False)
    d = digest()
    for v in ('fresh', 'fullview') + (('freversed',) if rtype == 'Sparse' else ()):
        if not applicable(t, rtype, v):
            continue
        calls = [(n, lambda o, n=n: reads.run(n, o)) for n in reads.names()]
        if v == 'fresh':
            calls += [(n, f) for n, f in mutators.M if n not in RANDOMNAMES]
            calls += [('tts ordered', lambda o: o.trainAndTestSets(.5, randomOrder=False))]
            calls += [('%s copy number' % a, lambda o, a=a: getattr(o, a).copy(number=1)) for a in ('points', 'features')]
        for n, f in calls:
            o = make(t, rtype, v)
            if digest() != d:
                rec.violation('creating %r as %s %s' % (t, rtype, v), 'random state changed')
                nimble.random.setSeed(3, useLog=False)
            try:
                f(o)
            except Exception:  # noqa
                rec.rejected += 1
            rec.step()
            rec.state((n, rtype, v))
            if digest() != d:
                rec.violation('%s on %r as %s %s' % (n, t, rtype, v), 'random state changed')
                nimble.random.setSeed(3, useLog=False)
    rec.trace()


def t_data(rec, shape, tier):
    n, w = shape
    seeds = [0, 1, 2 ** 32 - 1]
    for spars, etype, names in itertools.product([0, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99], ['int', 'float'], range(3)):
        pn = [None, ['p%d' % k for k in range(n)], 'automatic'][names]
        fn = [None, 'automatic', ['f%d' % k for k in range(w)]][names]
        nz = n * w if spars == 0 else None
        zeroat, values = set(), set()
        # fixed seeds: identical for every storage type, whatever the state before, state left alone
        for seed in seeds + [None]:
            want = None
            for rtype in TYPES + [None]:
                for st in STATES[:2] if seed is not None else STATES[2:3]:
                    setstate(st)
                    d = digest()
                    what = 'random.data(%d, %d, %s, %s, names %d, seed %s, %s) from %s' % (n, w, spars, etype, names, seed, rtype, st)
                    o = nimble.random.data(n, w, spars, pointNames=pn, featureNames=fn, elementType=etype, returnType=rtype, name='nn',
                                           randomSeed=seed, useLog=False)
                    rec.step()
                    rec.state((n, w, spars, etype, names, seed, rtype))
                    if seed is not None and digest() != d:
                        rec.violation(what, 'random state changed although a seed is given')
                    if seed is None and digest() == d:
                        rec.violation(what, 'random state not advanced')
                    if rtype is not None and o.getTypeString() != rtype:
                        rec.violation(what, 'type %s' % o.getTypeString())
                    got = observe_full(o)
                    rec.outcome(got)
                    if want is None:
                        want = got
                    if got != want:
                        rec.violation(what, '%r\nelsewhere %r' % (got, want))
                    if o.name != 'nn' or got[0] != (n, w):
                        rec.violation(what, 'name %r shape %r' % (o.name, got[0]))
                    if got[2] != tuple(pn if isinstance(pn, list) else [None] * n) or got[3] != tuple(fn if isinstance(fn, list) else [None] * w):
                        rec.violation(what, 'names %r %r' % got[2:])
                    flat = [v for r in got[1] for v in r]
                    zeros = sum(v == 0 for v in flat)
                    lo, hi = (0, 0) if spars == 0 else (n * w * spars - 1, n * w * spars + 1)
                    if not lo <= zeros <= hi:
                        rec.violation(what, '%d zeros of %d elements' % (zeros, n * w))
                    if etype == 'int' and not all(v == int(v) and 0 <= v <= 100 for v in flat):
                        rec.violation(what, 'values %r' % (flat,))
                    if etype == 'float' and all(v == int(v) for v in flat if v) and zeros < len(flat):
                        rec.violation(what, 'float values %r' % (flat,))
        # reachability over seeds
        counts = set()
        if names == 0 and n * w <= 20:
            for s in range(SEEDS):
                o = nimble.random.data(n, w, spars, elementType=etype, randomSeed=s, useLog=False, returnType=TYPES[s % 4])
                rec.step()
                flat = [v for r in observe(o)[1] for v in r]
                zeroat |= {k for k, v in enumerate(flat) if v == 0}
                counts.add(sum(v == 0 for v in flat))
                values |= {(k, v) for k, v in enumerate(flat) if v != 0}
            if len(counts) > 1:
                rec.violation('random.data(%d, %d, %s, %s)' % (n, w, spars, etype), 'numbers of zeros over the seeds: %r' % (counts,))
        if names == 0 and n * w <= 6:
            if 0 < int(n * w * (1 - spars)) < n * w:
                if zeroat != set(range(n * w)):
                    rec.violation('random.data(%d, %d, %s, %s)' % (n, w, spars, etype), 'positions never zero: %r' % (set(range(n * w)) - zeroat))
            if int(n * w * (1 - spars)):
                for k in range(n * w):
                    if len({v for q, v in values if q == k}) < 5:
                        rec.violation('random.data(%d, %d, %s, %s)' % (n, w, spars, etype), 'position %d takes too few values' % k)
    rec.trace()


def t_args(rec):
    bad = [dict(numPoints=0), dict(numFeatures=0), dict(numPoints=-1), dict(sparsity=1), dict(sparsity=-0.1), dict(sparsity=1.5),
           dict(elementType='str'), dict(elementType=None), dict(randomSeed=-1), dict(randomSeed=2 ** 32), dict(randomSeed='a'),
           dict(randomSeed=1.5), dict(returnType='list'), dict(returnType='Foo'), dict(pointNames=['a']), dict(pointNames=['a', 'a']),
           dict(featureNames=['a', 'b', 'c', 'd'])]
    for st in STATES:
        for b in bad:
            for rtype in TYPES:
                if 'returnType' in b and rtype != 'List':
                    continue
                kw = dict(numPoints=2, numFeatures=2, sparsity=0.5, elementType='int', randomSeed=4, returnType=rtype)
                kw.update(b)
                setstate(st)
                d = digest()
                rec.step()
                rec.state((st, repr(b), rtype))
                try:
                    nimble.random.data(useLog=False, **kw)
                    rec.violation('random.data %r' % (kw,), 'accepted')
                except Exception:  # noqa
                    rec.rejected += 1
                if digest() != d:
                    rec.violation('random.data %r' % (kw,), 'random state changed by a refused call')
    rec.trace()
