"""D17: trainAndTestSets partitions the points, with data and labels aligned."""
import nimble
from mc import tables
from mc.core import h64
from mc.model import Tab, approx
from mc.obs import TYPES, observe, observe_full, build, canon_tab
from mc.variants import MUTABLE, VIEWS, applicable, make
from mc.checks.R02 import digest

PROPERTY = 'D17'
LEVEL = 'model_checking'
RULE = ('every fraction k/8 and edge fraction x every form of labels (None, index, negative index, name, ordered lists, empty list, objects with '
        'equal / no / other names, of every storage type) x ordered and random (every seed of the range) x every table x storage type x variant; the '
        'ordered result is compared with the rows of a table model, the random one must be one reordering applied to data and labels alike')
ASSUMPTIONS = ['seeds range over a fixed finite set']
NAN = float('nan')


def tabs():
    # a feature of distinct values, so that rows can be told apart
    out = []
    for n, w, pn, fn in [(4, 3, ['a', 'b', 'c', 'd'], ['x', 'y', 'z']), (3, 3, None, ['x', None, 'z']), (5, 2, ['a', None, 'c', 'd', None], None),
                         (1, 2, None, ['x', 'y']), (2, 4, ['a', 'b'], None), (7, 1, None, None)]:
        out.append(Tab([[10 * i + 1] + [(i * j) % 3 for j in range(1, w)] for i in range(n)], pn, fn))
    out.append(Tab([[0, 0, 1], [NAN, 0, 2], [0, 5, 0]], None, ['x', 'y', 'z']))
    out.append(Tab([], None, ['x', 'y'], 2))
    out.append(Tab([['u', 0], ['v', 1], ['w', 0]], ['a', 'b', 'c'], ['x', 'y']))
    return out


def high():
    return [[[1, 0], [3, 4]], [[5, 6], [0, 8]], [[9, 10], [11, 0]]]


def label_forms(t):
    """name -> (argument or Base spec, indices extracted or None)"""
    w, n = t.nf, t.np
    out = [('none', None)]
    for j in range(w):
        out.append(('index', j))
        out.append(('index', j - w))
        if t.fn[j]:
            out.append(('index', t.fn[j]))
    if w > 1:
        out += [('list', [0, 1]), ('list', [1, 0]), ('list', [-1]), ('list', [w - 1, 0])]
        if t.fn[0]:
            out += [('list', [t.fn[0]]), ('list', [1, t.fn[0]])]
    if w:
        out += [('list', list(range(w))[::-1])]
    out += [('bad', w), ('bad', 'nosuch'), ('bad', [0, w]), ('bad', 1.5)]
    for names in ('same', 'none', 'swap', 'partial'):
        pn = {'same': t.pn, 'none': None, 'swap': t.pn[::-1], 'partial': t.pn[:1] + [None] * (n - 1) if n else []}[names]
        for fn in (['L'], None, ['x'], ['L', 'y'], [None, 'x']):
            k = len(fn) if fn else 1
            out.append(('base', Tab([[100 + i] * k for i in range(n)], pn, fn, k)))
    out.append(('badbase', Tab([[1]] * (n + 1))))
    return out


FRACS = [k / 8 for k in range(9)] + [0.33, 0.34, 0.999]
QFRACS = [0, 0.125, 0.375, 0.5, 0.625, 0.75, 1]
BADFRACS = [-0.1, 1.1, 20]


def tasks(tier):
    out = []
    for i, t in enumerate(tabs()):
        for rtype in TYPES:
            if rtype == 'Sparse' and any(isinstance(v, str) for r in t.rows for v in r):
                continue
            for v in (MUTABLE + VIEWS if tier == 'thorough' else ['fresh', 'fullview', 'view'] + (['freversed'] if rtype == 'Sparse' else [])):
                if applicable(t, rtype, v):
                    out.append([i, rtype, v, tier])
    out += [['high', rtype] for rtype in TYPES]
    return out


def conflict(a, b):
    return any(x and y and x != y for x, y in zip(a, b))


def out_of_order(a, b):
    return any(x and x in b and b[k] not in (None, x) for k, x in enumerate(a)) or \
        any(x and not y or y and not x for x, y in zip(a, b))


def expect(t, kind, arg, order, test):
    """trainX, (trainY), testX, (testY) tables; None = refused; 'any' = undefined."""
    def parts(x):
        return x.take(order[:len(order) - test]), x.take(order[len(order) - test:])
    if kind in ('bad', 'badbase'):
        return None
    if kind == 'none':
        return parts(t)
    if kind == 'base':
        if conflict(t.pn, arg.pn):
            return None
        if any(t.pn) and any(arg.pn) and out_of_order(t.pn, arg.pn):
            return 'any'
        drop = [j for j, x in enumerate(t.fn) if x and x in arg.fn]
        keep = [j for j in range(t.nf) if j not in drop]
        a, b = parts(t.takef(keep))
        c, d = parts(arg)
        return a, c, b, d
    ids = arg if kind == 'list' else [arg]
    idx = [t.fn.index(x) if isinstance(x, str) else x % t.nf for x in ids]
    keep = [j for j in range(t.nf) if j not in idx]
    a, b = parts(t.takef(keep))
    c, d = parts(t.takef(idx))
    return a, c, b, d


def run_task(task, rec):
    if task[0] == 'high':
        return t_high(rec, task[1])
    i, rtype, v, tier = task
    t = tabs()[i]
    before = canon_tab(t, approx)
    for kind, arg in label_forms(t):
        ltypes = TYPES if kind == 'base' and v == 'fresh' else [rtype]
        for ltype in ltypes:
            for frac in (FRACS if tier == 'thorough' else QFRACS) + BADFRACS:
                sizes = [k for k in range(t.np + 1) if abs(k - frac * t.np) <= 0.5 + 1e-9] if 0 <= frac <= 1 else [0]
                quick = tier == 'quick'
                if quick and ltype != rtype and frac not in (0, 0.375):
                    continue
                seeds = [None] + list(range(12 if not quick else 0 if frac in BADFRACS or kind in ('bad', 'badbase')
                                            or kind == 'base' and frac not in (0, 0.375) else 1))
                for seed in seeds:
                    lab = build(arg, ltype) if kind in ('base', 'badbase') else arg
                    obj = make(t, rtype, v)
                    if seed is not None:
                        nimble.random.setSeed(seed, useLog=False)
                    what = 'trainAndTestSets(%s, labels=%r%s, randomOrder=%s) on %r as %s %s seed %s' % (
                        frac, arg, ' as ' + ltype if kind == 'base' else '', seed is not None, t, rtype, v, seed)
                    d = digest()
                    rec.step()
                    try:
                        got = obj.trainAndTestSets(frac, labels=lab, randomOrder=seed is not None, useLog=False)
                    except Exception as e:  # noqa
                        got = e
                    rec.state((i, rtype, v, kind, repr(arg), frac, seed))
                    if seed is None and digest() != d:
                        rec.violation(what, 'random state changed without randomOrder')
                    if observe(obj, approx) != before:
                        rec.violation(what, 'the object changed to %r' % (observe(obj, approx),))
                    if kind == 'base' and observe(lab, approx) != canon_tab(arg, approx):
                        rec.violation(what, 'the labels object changed')
                    want = expect(t, kind, arg, list(range(t.np)), sizes[0])
                    if frac in BADFRACS or want is None:
                        if not isinstance(got, Exception):
                            rec.violation(what, 'accepted')
                        else:
                            rec.rejected += 1
                        continue
                    if want == 'any':
                        continue
                    if isinstance(got, Exception):
                        rec.violation(what, 'raised %s: %s' % (type(got).__name__, str(got)[:150]))
                        continue
                    if not isinstance(got, tuple) or len(got) != len(want):
                        rec.violation(what, 'returned %r' % (type(got),))
                        continue
                    wt = [rtype] * 2 if len(want) == 2 else [rtype, ltype] * 2
                    if [g.getTypeString() for g in got] != wt:
                        rec.violation(what, 'types %r' % ([g.getTypeString() for g in got],))
                    obs = tuple(observe_full(g, approx) for g in got)
                    rec.outcome(obs)
                    if seed is None:
                        cands = [list(range(t.np))]
                    else:
                        cands = None
                    ok = False
                    for size in sizes:
                        if cands:
                            w = tuple(canon_tab(x, approx) for x in expect(t, kind, arg, cands[0], size))
                            ok = ok or obs == w
                        else:
                            ok = ok or aligned(t, kind, arg, obs, size)
                    if not ok:
                        rec.violation(what, 'returned %r\nexpected %r' % (obs, tuple(canon_tab(x, approx) for x in want)))
    # over the seeds every point reaches the test set
    if t.np > 1 and v == 'fresh':
        seen = set()
        for seed in range(60):
            nimble.random.setSeed(seed, useLog=False)
            got = make(t, rtype, v).trainAndTestSets(.5, useLog=False)
            rec.step()
            seen |= {r for r in observe(got[1], approx)[1]}
        miss = set(tuple(map(approx, r)) for r in t.rows) - seen
        if miss:
            rec.violation('trainAndTestSets(.5) of %r as %s' % (t, rtype), 'never in the test set: %r' % (miss,))
    rec.trace()


def aligned(t, kind, arg, obs, size):
    """One reordering of the points explains every returned object."""
    import itertools
    if t.np > 5:
        perms = None
    else:
        perms = itertools.permutations(range(t.np))
    if perms is None:
        # rows are distinct in feature 0 of the one-feature table
        def place(row):
            return [k for k, r in enumerate(t.rows) if tuple(map(approx, r)) == row]
        if kind != 'none':
            labs = obs[1][1] + obs[3][1]
            if kind == 'base':
                order = [k for r in labs for k, q in enumerate(arg.rows) if tuple(map(approx, q)) == r]
            else:
                order = [p for r in labs for p in place(r)]
        else:
            order = [p for r in obs[0][1] + obs[1][1] for p in place(r)]
        if sorted(order) != list(range(t.np)):
            return False
        perms = [order]
    for order in perms:
        if obs == tuple(canon_tab(x, approx) for x in expect(t, kind, arg, list(order), size)):
            return True
    return False


def t_high(rec, rtype):
    src = high()
    flat = [[approx(v) for r in p for v in r] for p in src]
    for frac in FRACS:
        sizes = [k for k in range(4) if abs(k - frac * 3) <= 0.5 + 1e-9]
        for seed in [None, 0, 1, 2]:
            for labels in (None, 'obj', 0):
                o = nimble.data(src, returnType=rtype, useLog=False)
                lab = None if labels is None else nimble.data([[0], [1], [2]], useLog=False) if labels == 'obj' else 0
                what = 'trainAndTestSets(%s, labels=%r) seed %s of a 3x2x2 %s' % (frac, labels, seed, rtype)
                nimble.random.setSeed(seed or 0, useLog=False)
                rec.step()
                rec.state((rtype, frac, seed, labels))
                try:
                    got = o.trainAndTestSets(frac, labels=lab, randomOrder=seed is not None, useLog=False)
                except Exception as e:  # noqa
                    if labels != 0:
                        rec.violation(what, 'raised %r' % e)
                    continue
                if labels == 0:
                    rec.violation(what, 'accepted a feature of a three dimensional object')
                    continue
                train, test = got[0], got[-1 if labels is None else 2]
                pts = []
                for g in (train, test):
                    if tuple(g.dimensions[1:]) != (2, 2) or g.getTypeString() != rtype:
                        rec.violation(what, 'dimensions %r' % (g.dimensions,))
                    n = g.dimensions[0]
                    pts.append([[approx(v) for v in p.copy().iterateElements()] if False else pt(g, k) for k in range(n)])
                if len(pts[1]) not in sizes:
                    rec.violation(what, '%d points in the test set' % len(pts[1]))
                both = pts[0] + pts[1]
                if (both != flat if seed is None else sorted(both) != sorted(flat)):
                    rec.violation(what, 'points %r' % (both,))
                elif labels == 'obj':
                    ys = [r[0] for g in (got[1], got[3]) for r in observe(g, approx)[1]]
                    if [flat[int(y)] for y in ys] != both:
                        rec.violation(what, 'labels %r for points %r' % (ys, both))
    rec.trace()


def pt(g, k):
    p = g.points.copy(k, useLog=False)
    p.flatten(useLog=False)
    return [approx(v) for v in p]
