"""V01: validators divide the data exactly and report the performance of what was held out."""
import itertools
import nimble
from nimble.core.tune import KFold, LeaveOneOut, LeaveOneGroupOut, HoldoutData, HoldoutProportion
from mc.model import Tab, approx
from mc.obs import TYPES, observe, build

PROPERTY = 'V01'
LEVEL = 'model_checking'
RULE = ('every validator (k-fold for every k, leave one out, leave one group out for every assignment of groups and missing values, proportion, data) '
        'x number of points x storage types of the data and the labels x form of the labels x seed: a recording learner reports what it is given; '
        'the folds must be a partition with data and labels aligned and the reported performances those of the reported predictions')
ASSUMPTIONS = ['seeds range over a fixed finite set', 'learners are custom learners that record their input']
NAN = float('nan')
LOG = []


class VRec(nimble.CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=0):
        self.a = a
        LOG.append(['train', observe(trainX), observe(trainY), a])

    def apply(self, testX):
        LOG.append(['apply', observe(testX), self.a])
        one = [[r[1] * 3 + 7 * self.a + (r[1] % 5)] for r in ([None, v] for v in ident(testX))]
        return nimble.data([v * WIDTH[0] for v in one], useLog=False)


WIDTH = [1]


def ident(x):
    """the identities of the points of an object: feature 'id' or the one with values over 1000"""
    out = []
    for i in range(len(x.points)):
        out.append([v for v in x.points[i] if not isinstance(v, str) and v is not None and 1000 <= v < 2000][0])
    return out


def num(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return 0


def idof(o):
    return [int([num(v) for v in r if 1000 <= num(v) < 2000][0]) for r in o[1]]


def leak(o):
    return any(4900 <= num(v) for r in o[1] for v in r)


@nimble.calculate.performanceFunction('min', requires1D=False)
def perf(known, predicted):
    LOG.append(['perf', observe(known), observe(predicted)])
    return score(observe(known)[1], observe(predicted)[1])


def score(k, p):
    return sum(abs(float(a[0]) - float(b[0])) * (1 + float(a[0]) % 11) for a, b in zip(k, p)) + 1000 * len(k)


def predicted(i, a):
    return i * 3 + 7 * a + (i % 5)


def label(k):
    return 5000 + 3 * (k * k % 17) - k


def table(n, names, variant):
    """points with identity 1000 + 13k (shuffled), zeros and labels"""
    ids = [1000 + 13 * ((k * 5 + 2) % 17) for k in range(n)]
    X = Tab([[0, i, (k % 2) * 4] for k, i in enumerate(ids)], ['p%d' % k for k in range(n)] if names else None,
            ['f', 'id', 'g'] if names else None, 3)
    return ids, X


def setup():
    try:
        nimble.core.interfaces  # noqa
    except AttributeError:
        pass


def tasks(tier):
    out = []
    top = 9 if tier == 'thorough' else 6
    for n in range(1, top + 1):
        for rtype in TYPES:
            out.append(['kfold', n, rtype, tier])
            out.append(['prop', n, rtype, tier])
    for n in range(1, (6 if tier == 'thorough' else 4) + 1):
        for rtype in TYPES:
            out.append(['group', n, rtype, tier])
    for rtype in TYPES:
        out.append(['data', 3, rtype, tier])
        out.append(['bad', 3, rtype, tier])
    return out


def forms(n, names, rtype, tier):
    """(form, X, Y argument, ids, labels, width of the labels, tables)"""
    ids, X = table(n, names, 0)
    lab = [label(k) for k in range(n)]
    out = []
    ytypes = TYPES if tier == 'thorough' else [rtype, TYPES[(TYPES.index(rtype) + 1) % 4]]
    for yt in ytypes:
        Y = Tab([[v] for v in lab], X.pn if names else None, ['y'])
        out.append(('object ' + yt, X, Y, yt, 1))
    Y2 = Tab([[v, 0] for v in lab], None, ['y', 'z'])
    out.append(('object of two', X, Y2, rtype, 2))
    XY = Tab([[r[0], v, r[1], r[2]] for r, v in zip(X.rows, lab)], X.pn, ['f', 'y', 'id', 'g'] if names else [None, 'y', None, None])
    out.append(('index', XY, 1, None, 1))
    out.append(('name', XY, 'y', None, 1))
    out.append(('list', XY, ['y', 0], None, 2))
    return ids, lab, out


def fmt(v):
    return v if not isinstance(v, Tab) else v.rows


def check_folds(rec, what, ids, lab, log, width, groups=None, k=None, a=0, dropped=()):
    """the (train, apply, perf) triples of one validation"""
    n = len(ids)
    labs = dict(zip(ids, lab))
    use = [i for i in ids if i not in dropped]
    triples, tests = [], []
    final = None
    pos = 0
    while pos + 2 < len(log) and log[pos][0] == 'train':
        if [x[0] for x in log[pos:pos + 3]] != ['train', 'apply', 'perf']:
            rec.violation('order|' + what, repr([x[0] for x in log]))
            return None
        triples.append(log[pos:pos + 3])
        pos += 3
    if pos == len(log) - 1 and log[pos][0] == 'perf':
        final = log[pos]
    else:
        rec.violation('order|' + what, repr([x[0] for x in log]))
        return None
    per = []
    for tr, ap, pf in triples:
        trI = idof(tr[1])
        teI = idof(ap[1])
        tests.append(teI)
        per.append(score(pf[1][1], pf[2][1]))
        if sorted(trI + teI) != sorted(use):
            rec.violation('partition|' + what, 'train %r test %r of %r' % (trI, teI, use))
            return None
        if [float(r[0]) for r in tr[2][1]] != [labs[i] for i in trI]:
            rec.violation('labels of train|' + what, 'train %r labels %r' % (trI, tr[2][1]))
            return None
        if [float(r[0]) for r in pf[1][1]] != [labs[i] for i in teI]:
            rec.violation('labels of test|' + what, 'test %r labels %r' % (teI, pf[1][1]))
            return None
        if [float(r[0]) for r in pf[2][1]] != [predicted(i, a) for i in teI]:
            rec.violation('predictions|' + what, 'test %r predictions %r' % (teI, pf[2][1]))
            return None
        if tr[1][3] != ap[1][3] or any(len(r) != len(tr[1][1][0]) for r in ap[1][1]):
            rec.violation('features|' + what, '%r %r' % (tr[1][3], ap[1][3]))
            return None
        if leak(tr[1]):
            rec.violation('labels in data|' + what, repr(tr[1][1]))
            return None
        if tr[3] != a:
            rec.violation('arguments|' + what, 'trained with %r' % tr[3])
            return None
    if sorted(i for t in tests for i in t) != sorted(use):
        rec.violation('each point tested once|' + what, 'tests %r of %r' % (tests, use))
        return None
    if k is not None and (len(tests) != k or max(map(len, tests)) - min(map(len, tests)) > 1):
        rec.violation('sizes|' + what, repr(tests))
        return None
    if groups is not None:
        want = sorted(sorted(g) for g in groups)
        if sorted(sorted(t) for t in tests) != want:
            rec.violation('groups|' + what, '%r not %r' % (tests, want))
            return None
    alls = sorted((float(x[0]), float(y[0])) for x, y in zip(final[1][1], final[2][1]))
    if alls != sorted((float(labs[i]), float(predicted(i, a))) for i in use):
        rec.violation('collected|' + what, '%r' % (final,))
        return None
    rec.outcome(tuple(map(tuple, tests)))
    return per, score(final[1][1], final[2][1])


def make(X, rtype, Y, yt):
    x = build(X, rtype)
    y = build(Y, yt) if isinstance(Y, Tab) else Y
    return x, y, observe(x), observe(y) if isinstance(Y, Tab) else y


def unchanged(rec, what, x, y, bx, by):
    if observe(x) != bx:
        rec.violation('data changed|' + what, '%r was %r' % (observe(x), bx))
    if isinstance(y, nimble.core.data.Base) and observe(y) != by:
        rec.violation('labels changed|' + what, '%r was %r' % (observe(y), by))


def explore(rec, what, maker, ids, lab, width, **kw):
    """make the validator and validate twice"""
    WIDTH[0] = width
    del LOG[:]
    try:
        v = maker()
    except Exception as e:
        rec.violation('refused|' + what, repr(e))
        return None
    tests = None
    for a in (0, 2, 1):
        del LOG[:]
        try:
            res = v.validate(a=a) if a != 1 else v.validate({'a': 1}, record=False)
        except Exception as e:
            rec.violation('fails|' + what, repr(e))
            return None
        rec.step()
        got = check_folds(rec, '%s a=%d' % (what, a), ids, lab, list(LOG), width, a=a, **kw)
        if got is None:
            return None
        per, final = got
        if res != final:
            rec.violation('performance|' + what, '%r is not %r' % (res, final))
        if v._deepResults[-1] != per:
            rec.violation('deep results|' + what, '%r is not %r' % (v._deepResults[-1], per))
        cur = [tuple(sorted(map(repr, x[1][1]))) for x in LOG if x[0] == 'apply']
        if tests is not None and sorted(cur) != sorted(tests):
            rec.violation('folds differ|' + what, '%r %r' % (cur, tests))
        tests = cur
    if [x.get('a') for x in v._arguments] != [0, 2] or len(v._results) != 2:
        rec.violation('recorded|' + what, '%r %r' % (v._arguments, v._results))
    best = min(zip(v._results, [0, 2]))
    if v._best[0] != best[0]:
        rec.violation('best|' + what, '%r of %r' % (v._best, v._results))
    return v


def run_task(task, rec):
    kind, n, rtype, tier = task
    nimble.random.setSeed(7, useLog=False)
    globals()['t_' + kind](rec, n, rtype, tier)
    rec.trace()


def t_kfold(rec, n, rtype, tier):
    seeds = range(12 if tier == 'thorough' else 2)
    for names in (True, False):
        ids, lab, fs = forms(n, names, rtype, tier)
        for form, X, Y, yt, width in fs:
            for folds in range(-1, n + 2):
                ok = 1 < folds <= n
                for seed in seeds if ok else [0]:
                    nimble.random.setSeed(seed, useLog=False)
                    what = 'KFold %s n=%d names=%r labels %s folds=%d seed=%d' % (rtype, n, names, form, folds, seed)
                    rec.state(what)
                    x, y, bx, by = make(X, rtype, Y, yt)
                    if folds == 1:
                        continue
                    if not ok:
                        try:
                            KFold(VRec, x, y, perf, folds=folds, useLog=False)
                            rec.violation('not refused|' + what)
                        except nimble.exceptions.NimbleException:
                            rec.rejected += 1
                    else:
                        explore(rec, what, lambda: KFold(VRec, x, y, perf, folds=folds, useLog=False), ids, lab, width, k=folds)
                    unchanged(rec, what, x, y, bx, by)
            if n > 1:
                what = 'LeaveOneOut %s n=%d names=%r labels %s' % (rtype, n, names, form)
                rec.state(what)
                x, y, bx, by = make(X, rtype, Y, yt)
                if isinstance(y, list):
                    y = list(y)
                explore(rec, what, lambda: LeaveOneOut(VRec, x, y, perf, useLog=False), ids, lab, width, k=n)
                unchanged(rec, what, x, y, bx, by)
            # through the training functions
            for folds in [f for f in (2, 3, n) if 1 < f <= n]:
                if isinstance(y, list):
                    continue
                what = 'trainAndTestOnTrainingData %s n=%d names=%r labels %s folds=%d' % (rtype, n, names, form, folds)
                rec.state(what)
                x, y, bx, by = make(X, rtype, Y, yt)
                WIDTH[0] = width
                del LOG[:]
                try:
                    res = nimble.trainAndTestOnTrainingData(VRec, perf, x, y, crossValidationFolds=folds, useLog=False)
                except Exception as e:
                    rec.violation('fails|' + what, repr(e))
                    continue
                log = list(LOG)
                if [l[0] for l in log[:3]] != ['train', 'apply', 'perf'] or idof(log[0][1]) != ids or idof(log[1][1]) != ids:
                    rec.violation('whole set|' + what, repr(log[:3]))
                    continue
                got = check_folds(rec, what, ids, lab, log[3:], width, k=folds)
                if got and abs(got[1] - res) > 1e-6 and abs(sum(got[0]) / len(got[0]) - res) > 1e-6:
                    rec.violation('performance|' + what, '%r is not %r' % (res, got[1]))
                unchanged(rec, what, x, y, bx, by)


def t_group(rec, n, rtype, tier):
    vals = ['u', 'v', None] if rtype != 'Sparse' else [0, 2, NAN]
    alts = [[0, 2, NAN]] + ([['u', 'v', None], ['u', '', 'nan']] if rtype != 'Sparse' else [])
    for vals in alts:
        for assign in itertools.product(vals, repeat=n):
            miss = [g is None or g != g for g in assign]
            present = {g for g, m in zip(assign, miss) if not m}
            for names in (True, False) if n < 4 else (True,):
                ids, lab, fs = forms(n, names, rtype, 'quick')
                if n > 3 and tier == 'quick':
                    fs = [f for f in fs if f[0] in ('object ' + rtype, 'name')]
                for form, X, Y, yt, width in fs:
                    for where in ('object', 'feature'):
                        if where == 'feature':
                            if isinstance(Y, list) and not names:
                                continue
                            T = Tab([list(r) + [g] for r, g in zip(X.rows, assign)], X.pn, list(X.fn) + ['grp'], X.nf + 1)
                        else:
                            T = X
                        what = 'LeaveOneGroupOut %s n=%d names=%r labels %s group %s %r' % (rtype, n, names, form, where, assign)
                        rec.state(what)
                        x, y, bx, by = make(T, rtype, Y, yt)
                        gt = Tab([[g] for g in assign], None, ['grp'])
                        dropped = [i for i, m in zip(ids, miss) if m]
                        groups = [[i for i, g, m in zip(ids, assign, miss) if not m and g == h] for h in present]
                        for gtype in [rtype] if where == 'object' else [None]:
                            grp = build(gt, gtype) if where == 'object' else ('grp' if names else T.nf - 1)
                            if len(present) < 2:
                                if not present:
                                    try:
                                        LeaveOneGroupOut(VRec, x, y, perf, grp, useLog=False)
                                        rec.violation('not refused|' + what)
                                    except nimble.exceptions.NimbleException:
                                        rec.rejected += 1
                            else:
                                explore(rec, what, lambda: LeaveOneGroupOut(VRec, x, y, perf, grp, useLog=False), ids, lab, width,
                                        groups=groups, dropped=dropped, k=None)
                            unchanged(rec, what, x, y, bx, by)


def holdout(rec, what, log, ids, lab, held, a):
    """train, apply, perf of a holdout validation; returns its performance"""
    labs = dict(zip(ids, lab))
    if [x[0] for x in log] != ['train', 'apply', 'perf']:
        rec.violation('order|' + what, repr([x[0] for x in log]))
        return None
    tr, ap, pf = log
    trI, teI = idof(tr[1]), idof(ap[1])
    if [float(r[0]) for r in tr[2][1]] != [labs[i] for i in trI]:
        rec.violation('labels of train|' + what, '%r %r' % (trI, tr[2][1]))
    if [float(r[0]) for r in pf[1][1]] != [labs[i] for i in teI]:
        rec.violation('labels of test|' + what, '%r %r' % (teI, pf[1][1]))
    if [float(r[0]) for r in pf[2][1]] != [predicted(i, a) for i in teI]:
        rec.violation('predictions|' + what, '%r %r' % (teI, pf[2][1]))
    if leak(tr[1]) or leak(ap[1]):
        rec.violation('labels in data|' + what, repr(tr[1][1]))
    if tr[3] != a:
        rec.violation('arguments|' + what, 'trained with %r' % tr[3])
    return trI, teI, score(pf[1][1], pf[2][1])


def t_prop(rec, n, rtype, tier):
    seeds = range(20 if tier == 'thorough' else 2)
    for names in (True, False):
        ids, lab, fs = forms(n, names, rtype, tier)
        for form, X, Y, yt, width in fs:
            for p in (0.1, 0.2, 0.25, 0.34, 0.5, 0.75, 0.9, 0.99):
                size = int(p * n)
                for seed in seeds if size else [0]:
                    nimble.random.setSeed(seed, useLog=False)
                    what = 'HoldoutProportion %s n=%d names=%r labels %s p=%r seed=%d' % (rtype, n, names, form, p, seed)
                    rec.state(what)
                    x, y, bx, by = make(X, rtype, Y, yt)
                    WIDTH[0] = width
                    try:
                        v = HoldoutProportion(VRec, x, y, perf, p, useLog=False)
                    except nimble.exceptions.NimbleException as e:
                        if size:
                            rec.violation('refused|' + what, repr(e))
                        rec.rejected += 1
                        continue
                    unchanged(rec, what, x, y, bx, by)
                    first = None
                    for a in (0, 2):
                        del LOG[:]
                        try:
                            res = v.validate(a=a)
                        except Exception as e:
                            if size:
                                rec.violation('fails|' + what, repr(e))
                            break
                        rec.step()
                        got = holdout(rec, what, list(LOG), ids, lab, None, a)
                        if got is None:
                            break
                        trI, teI, s = got
                        if sorted(trI + teI) != sorted(ids):
                            rec.violation('partition|' + what, '%r %r' % (trI, teI))
                        if abs(len(teI) - p * n) >= 1:
                            rec.violation('size|' + what, '%r %r' % (trI, teI))
                        if res != s:
                            rec.violation('performance|' + what, '%r is not %r' % (res, s))
                        if first is not None and first != (sorted(trI), sorted(teI)):
                            rec.violation('parts differ|' + what, '%r %r' % (first, (trI, teI)))
                        first = sorted(trI), sorted(teI)
                        rec.outcome(tuple(sorted(teI)))
                    unchanged(rec, what, x, y, bx, by)


def t_data(rec, n, rtype, tier):
    for names in (True, False):
        for m in (1, 2, 4):
            ids, lab, fs = forms(n, names, rtype, tier)
            ids2 = [1000 + 17 + 13 * k for k in range(m)]
            lab2 = [5900 - 7 * k for k in range(m)]
            for form, X, Y, yt, width in fs:
                for vform in ('object', 'identifier', 'none'):
                    V = Tab([[0, i, 1] for i in ids2], None, ['f', 'id', 'g'] if names else None, 3)
                    VY = Tab([[v] + [0] * (width - 1) for v in lab2], None, ['y'] + ['z'] * (width - 1))
                    what = 'HoldoutData %s n=%d m=%d names=%r labels %s validateY %s' % (rtype, n, m, names, form, vform)
                    x, y, bx, by = make(X, rtype, Y, yt)
                    refused = False
                    ident_ok = not isinstance(Y, Tab)
                    if vform == 'object':
                        val, valY = build(V, rtype), build(VY, yt or rtype)
                        if isinstance(Y, list):
                            val = build(Tab([r[1:] for r in V.rows], None, V.fn[1:], 2), rtype)
                    else:
                        if isinstance(Y, list):
                            T = Tab([[0, v, r[1], r[2]] for r, v in zip(V.rows, lab2)], None, X.fn)
                        else:
                            T = Tab([[r[0], v, r[1], r[2]] for r, v in zip(V.rows, lab2)], None, ['f', 'y', 'id', 'g'] if names else [None, 'y', None, None])
                        val = build(T, rtype)
                        valY = (Y if not isinstance(Y, Tab) else 'y') if vform == 'identifier' else None
                        if width == 2 and not isinstance(Y, list):
                            continue
                        refused = vform == 'none' and isinstance(Y, Tab)
                    rec.state(what)
                    bval = observe(val)
                    WIDTH[0] = width
                    try:
                        v = HoldoutData(VRec, x, y, perf, val, valY, useLog=False)
                    except nimble.exceptions.NimbleException as e:
                        if not refused:
                            rec.violation('refused|' + what, repr(e))
                        rec.rejected += 1
                        continue
                    if refused:
                        rec.violation('not refused|' + what)
                        continue
                    for a in (0, 2, 2, 1):
                        del LOG[:]
                        try:
                            res = v.validate(a=a)
                        except Exception as e:
                            rec.violation('fails|' + what, repr(e))
                            break
                        rec.step()
                        log = list(LOG)
                        if [l[0] for l in log] == ['apply', 'perf'] and a == 2:
                            log = [last] + log
                        last = log[0]
                        got = holdout(rec, what + ' a=%d' % a, log, ids + ids2, lab + lab2, None, a)
                        if got is None:
                            break
                        trI, teI, s = got
                        if trI != ids or teI != ids2:
                            rec.violation('points|' + what, '%r %r' % (trI, teI))
                        if res != s:
                            rec.violation('performance|' + what, '%r is not %r' % (res, s))
                    unchanged(rec, what, x, y, bx, by)
                    if observe(val) != bval:
                        rec.violation('validateX changed|' + what, '%r was %r' % (observe(val), bval))


def t_bad(rec, n, rtype, tier):
    ids, X = table(3, True, 0)
    x = build(X, rtype)
    y4 = build(Tab([[1], [2], [3], [4]]), rtype)
    y3 = build(Tab([[1], [2], [3]]), rtype)
    g4 = build(Tab([[1], [1], [2], [2]]), rtype)
    val = build(X, rtype)
    cases = [('KFold of 4 labels', lambda: KFold(VRec, x, y4, perf, folds=2, useLog=False)),
             ('LeaveOneOut of 4 labels', lambda: LeaveOneOut(VRec, x, y4, perf, useLog=False)),
             ('LeaveOneGroupOut None', lambda: LeaveOneGroupOut(VRec, x, y3, perf, None, useLog=False)),
             ('LeaveOneGroupOut labels', lambda: LeaveOneGroupOut(VRec, x, 'g', perf, 'g', useLog=False)),
             ('LeaveOneGroupOut 4 groups', lambda: LeaveOneGroupOut(VRec, x, y3, perf, g4, useLog=False)),
             ('HoldoutData None', lambda: HoldoutData(VRec, x, y3, perf, None, y3, useLog=False)),
             ('HoldoutData no Y', lambda: HoldoutData(VRec, x, y3, perf, val, None, useLog=False)),
             ('HoldoutData 4 labels', lambda: HoldoutData(VRec, x, y3, perf, val, y4, useLog=False)),
             ('HoldoutData 4 labels', lambda: HoldoutData(VRec, x, y4, perf, val, y3, useLog=False)),
             ('KFold no such', lambda: KFold(VRec, x, 'nosuch', perf, folds=2, useLog=False))]
    for p in (0, 1, -0.5, 1.5):
        cases.append(('HoldoutProportion %r' % p, lambda p=p: HoldoutProportion(VRec, x, y3, perf, p, useLog=False)))
    for what, f in cases:
        rec.state((rtype, what))
        before = observe(x), observe(y3), observe(y4)
        rec.step()
        try:
            f()
            rec.violation('not refused|%s %s' % (what, rtype))
        except (nimble.exceptions.NimbleException, KeyError, IndexError):
            rec.rejected += 1
        if (observe(x), observe(y3), observe(y4)) != before:
            rec.violation('changed by refusal|%s %s' % (what, rtype))
