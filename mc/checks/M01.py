"""M01: the training functions and TrainedLearner methods agree with each other over every history."""
import itertools
import os
import pickle
import numpy as np
import nimble
from mc.core import SCRATCH
from mc.model import Tab
from mc.obs import TYPES, observe, build
from mc.checks.R02 import digest

PROPERTY = 'M01'
LEVEL = 'model_checking'
RULE = ('(a) every sequence up to the depth of train / retrain / incrementalTrain / apply / test / copy / save calls, successful and refused, on learners with '
        'a known state, compared with a model of that state; (b) every training function x form of labels and arguments x storage types x learners: the '
        'functions agree with train followed by apply or test, name their results, keep their inputs and draw only from their seed; (c) scores and multi-class '
        'strategies against brute force')
ASSUMPTIONS = ['the learners in (a) are custom learners with a computable state', 'floating point results compared to 1e-7']


class MSum(nimble.CustomLearner):
    """state: list of the training values seen since the last complete training"""
    learnerType = 'regression'

    def train(self, trainX, trainY, a=1, r=None):
        if a == 'boom':
            raise ValueError('boom')
        self.seen = []
        self._add(trainX, trainY, a)

    def incrementalTrain(self, trainX, trainY, a=1, r=None):
        self._add(trainX, trainY, a)

    def _add(self, trainX, trainY, a):
        x, y = observe(trainX)[1], observe(trainY)[1]
        self.seen = self.seen + [[float(sum(float(v) for v in r)), [float(v) for v in s]] for r, s in zip(x, y)]
        self.k = a
        self.width = len(trainY.features)

    def apply(self, testX, p=0):
        out = []
        for row in observe(testX)[1]:
            out.append([sum(float(v) for v in row) * self.k + p * 1000 + sum(s[0] * (i + 1) + s[1][j] for i, s in enumerate(self.seen))
                        for j in range(self.width)])
        return nimble.data(out, useLog=False)


class MOnce(MSum):
    """no incremental training"""
    incrementalTrain = nimble.CustomLearner.incrementalTrain

    def train(self, trainX, trainY, a=1):
        MSum.train(self, trainX, trainY, a)


class MRand(nimble.CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=1):
        self.v = nimble.random.pythonRandom.random() + nimble.random.numpyRandom.rand()

    def apply(self, testX):
        return nimble.data([[self.v]] * len(testX.points), useLog=False)


class MScores(nimble.CustomLearner):
    """scores are the frequencies of each label among the training points, shifted by the row"""
    learnerType = 'classification'

    def train(self, trainX, trainY):
        self.y = [trainY[i, 0] for i in range(len(trainY.points))]

    def _score(self, row, lab):
        return self.y.count(lab) + ((sum(row) * (3 + self.labelList.tolist().index(lab))) % 5) / 10

    def getScores(self, testX):
        return nimble.data([[self._score(list(p), v) for v in self.labelList] for p in testX.points], useLog=False)

    def apply(self, testX):
        out = []
        for p in testX.points:
            sc = [self._score(list(p), v) for v in self.labelList]
            out.append([self.labelList[sc.index(max(sc))].item()])
        return nimble.data(out, useLog=False)


@nimble.calculate.performanceFunction('min', requires1D=False)
def perf(known, predicted):
    k, p = observe(known)[1], observe(predicted)[1]
    return sum((i + 1) * abs(float(a) - float(b)) for i, (r, s) in enumerate(zip(k, p)) for a, b in zip(r, s))


X1 = Tab([[1, 0], [2, 5], [0, 0]], ['a', 'b', 'c'], ['x', 'y'])
Y1 = Tab([[3], [0], [4]], None, ['lab'])
X2 = Tab([[7, 1], [0, 2]], None, ['x', 'y'])
Y2 = Tab([[10], [20]], None, ['other'])
YY2 = Tab([[10, 1], [20, 2]], None, ['o1', 'o2'])
X3 = Tab([[1, 2, 3], [4, 0, 6]], None, ['x', 'y', 'z'])
T2 = Tab([[1, 1], [0, 3]], ['t0', 't1'], ['x', 'y'])
T3 = Tab([[1, 1, 0], [0, 3, 2]], ['t0', 't1'], ['x', 'y', 'z'])
SETS = {'d1': (X1, Y1), 'd2': (X2, Y2), 'dd': (X2, YY2), 'd3': (X3, Y2)}


def with_label(X, Y, at=1):
    return Tab([r[:at] + list(s) + r[at:] for r, s in zip(X.rows, Y.rows)], X.pn, X.fn[:at] + Y.fn + X.fn[at:])


class Model:
    def __init__(self):
        self.seen, self.args, self.names, self.nf = None, {}, None, None
        self.k = None

    def copy(self):
        m = Model()
        m.__dict__.update({k: v.copy() if isinstance(v, (dict, list)) else v for k, v in self.__dict__.items()})
        return m

    def train(self, key, args, more=False):
        X, Y = SETS[key]
        new = [[float(sum(r)), [float(v) for v in s]] for r, s in zip(X.rows, Y.rows)]
        self.seen = self.seen + new if more else new
        self.args = {**self.args, **args}
        self.k = self.args.get('a', 1)
        self.width = Y.nf
        if not more:
            self.names = Y.fn
        self.nf = X.nf

    def predict(self, T, p=None):
        p = self.args.get('p', 0) if p is None else p
        return [[sum(row) * self.k + p * 1000 + sum(s[0] * (i + 1) + s[1][j] for i, s in enumerate(self.seen)) for j in range(self.width)]
                for row in T.rows]


def ops():
    """name -> (kind, data, label form, arguments, how arguments are given)"""
    out = []
    for key, form, args in [('d1', 'obj', {}), ('d2', 'obj', {'a': 3}), ('d2', 'name', {}), ('d2', 'index', {'p': 2}), ('dd', 'obj', {}),
                            ('d3', 'obj', {'a': 2, 'p': 1})]:
        out.append(['retrain', key, form, args, 'ok'])
    out.append(['retrain', 'd2', 'obj', {'nosuch': 1}, 'bad'])
    out.append(['retrain', 'd2', 'obj', {'a': 'boom'}, 'bad'])
    out.append(['retrain', 'd2', 'mismatch', {'a': 9}, 'bad'])
    out.append(['retrain', 'd2', 'obj', {'a': 'tune'}, 'bad'])
    for key, form, args in [('d2', 'obj', {}), ('d2', 'name', {'a': 5}), ('d1', 'index', {}), ('d2', 'obj', {'p': 4})]:
        out.append(['incrementalTrain', key, form, args, 'ok'])
    out.append(['incrementalTrain', 'd2', 'mismatch', {'a': 7}, 'bad'])
    out.append(['save', None, None, {}, 'ok'])
    out.append(['train', 'd1', 'name', {'a': 4}, 'ok'])
    out.append(['again', 'd2', 'obj', {'a': 8}, 'ok'])
    return out


LEARNERS = ['nimble.KNNClassifier', 'nimble.RidgeRegression', 'nimble.MultiOutputRidgeRegression', 'sklearn.LinearRegression',
            'sklearn.KNeighborsClassifier', 'sklearn.DecisionTreeRegressor', 'sklearn.LogisticRegression']


def tasks(tier):
    out = []
    n = len(ops())
    for first in range(n):
        for rtype in (TYPES if tier == 'thorough' else TYPES[first % 4:first % 4 + 1]):
            out.append(['history', first, rtype, 3 if tier == 'quick' else 4])
    for k, learner in enumerate(['MSum', 'MOnce', 'MRand'] + LEARNERS):
        for rtype in TYPES:
            out.append(['api', learner, rtype, tier])
    for rtype in TYPES:
        out.append(['scores', rtype, tier])
        out.append(['seed', rtype, tier])
    return out


def run_task(task, rec):
    nimble.random.setSeed(11, useLog=False)
    globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def data(key, form, rtype):
    X, Y = SETS[key]
    if form == 'obj':
        return build(X, rtype), build(Y, rtype)
    if form == 'mismatch':
        return build(X, rtype), build(Tab([[1]] * (X.np + 1)), rtype)
    x = build(with_label(X, Y), rtype)
    return x, (Y.fn[0] if form == 'name' else 1)


def check(rec, what, tl, m, rtype):
    T = T2 if m.nf == 2 else T3
    t = build(T, rtype)
    rec.step()
    for p in (None, 7):
        try:
            got = tl.apply(t, useLog=False) if p is None else tl.apply(t, useLog=False, p=p)
        except Exception as e:
            rec.violation('apply fails|' + what, repr(e))
            return
        o = observe(got)
        want = m.predict(T, p)
        if [[float(v) for v in r] for r in o[1]] != want:
            rec.violation('predictions|' + what, '%r not %r' % (o[1], want))
        if list(o[2]) != T.pn or list(o[3]) != list(m.names):
            rec.violation('names|' + what, '%r %r not %r %r' % (o[2], o[3], T.pn, m.names))
    if tl.arguments != m.args:
        rec.violation('arguments|' + what, '%r not %r' % (tl.arguments, m.args))
    attrs = tl.getAttributes()
    if attrs.get('k') != m.k or attrs.get('seen') != m.seen or any(attrs[k] != v for k, v in m.args.items() if k in attrs):
        rec.violation('attributes|' + what, '%r' % (attrs,))
    known = Tab([[5] * m.width, [1] * m.width])
    pr = m.predict(T)
    want = sum((i + 1) * abs(known.rows[i][j] - pr[i][j]) for i in range(2) for j in range(m.width))
    if tl.test(perf, t, build(known, rtype), useLog=False) != want:
        rec.violation('test|' + what, '%r' % want)
    other = build(T3 if m.nf == 2 else T2, rtype)
    try:
        tl.apply(other, useLog=False)
        if not (m.nf == len(SETS['d1'][0].rows) and False):
            rec.violation('other features accepted|' + what)
    except nimble.exceptions.NimbleException:
        pass
    rec.outcome((tuple(map(tuple, pr)), repr(sorted(m.args.items(), key=str))))


def t_history(rec, first, rtype, depth):
    O = ops()
    path = os.path.join(SCRATCH, 'tl%d.pickle' % os.getpid())
    for rest in itertools.product(range(len(O)), repeat=depth - 1):
        seq = (first,) + rest
        # other learners created before must keep their state
        start = {'a': 2}
        tl = nimble.train(MSum, *data('d1', 'obj', rtype), arguments=start, useLog=False)
        m = Model()
        m.train('d1', {'a': 2})
        olds = []
        what = rtype
        for k in seq:
            kind, key, form, args, ok = O[k]
            what += ' %s(%s %s %r)' % (kind, key, form, args)
            given = {n: (nimble.Tune([1, 2]) if v == 'tune' else v) for n, v in args.items()}
            if kind == 'save':
                tl.save(path)
                olds.append((tl, m.copy()))
                tl = nimble.loadTrainedLearner(path, useLog=False)
                rec.state(what)
                continue
            x, y = data(key, form, rtype)
            if kind == 'train':
                olds.append((tl, m.copy()))
                m = Model()
                tl = nimble.train('custom.MSum', x, y, useLog=False, **given)
                m.train(key, args)
                rec.state(what)
                continue
            if kind == 'again':
                # training a copy must not affect this one
                import copy
                other = copy.copy(tl)
                mo = m.copy()
                other.retrain(x, y, useLog=False, **given)
                mo.train(key, args)
                olds.append((other, mo))
                rec.state(what)
                continue
            before = observe(x), (observe(y) if isinstance(y, nimble.core.data.Base) else y)
            try:
                if kind == 'retrain' and k % 2:
                    tl.retrain(x, y, useLog=False, **given)
                else:
                    getattr(tl, kind)(x, y, dict(given), useLog=False)
                err = None
            except Exception as e:
                err = e
            if (observe(x), (observe(y) if isinstance(y, nimble.core.data.Base) else y)) != before:
                rec.violation('data changed|' + what)
            if ok == 'ok' and kind == 'incrementalTrain' and SETS[key][0].nf != m.nf:
                # features differ from before: either
                if err is None:
                    break
                continue
            if ok == 'ok' and kind == 'incrementalTrain' and m.width != SETS[key][1].nf:
                break
            if ok == 'ok':
                if err is not None:
                    rec.violation('fails|' + what, repr(err))
                    break
                m.train(key, args, more=kind == 'incrementalTrain')
                if kind == 'retrain' and tl.tuning is not None:
                    rec.violation('tuning|' + what)
            elif err is None:
                rec.violation('not refused|' + what)
                break
            else:
                rec.rejected += 1
            rec.state(what)
        else:
            check(rec, what, tl, m, rtype)
            for o, mo in olds:
                check(rec, 'earlier learner after ' + what, o, mo, rtype)
            if start != {'a': 2}:
                rec.violation('arguments of the caller changed|' + what, repr(start))
    if os.path.exists(path):
        os.remove(path)


# ------------------------------------------------------------- (b)
def learner(name):
    return {'MSum': MSum, 'MOnce': MOnce, 'MRand': MRand}.get(name, name)


def values(obj):
    o = observe(obj)
    return [[round(float(v), 7) for v in r] for r in o[1]], o[2], o[3]


def t_api(rec, name, rtype, tier):
    rows = [[1, 0, 2], [2, 5, 0], [0, 0, 1], [7, 1, 3], [3, 3, 3], [0, 9, 1]]
    labs = [[1], [2], [1], [3], [2], [3]]
    multi = 'Multi' in name
    if multi:
        labs = [[a[0], 10 - a[0] * i] for i, a in enumerate(labs)]
    tests = [[1, 1, 1], [0, 4, 0], [6, 0, 3], [2, 2, 2]]
    tlabs = [[1], [3], [3], [2]] if not multi else [[1, 2], [3, 0], [3, 1], [2, 2]]
    w = len(labs[0])
    L = learner(name)
    argsets = {'MSum': [{}, {'a': 3}, {'a': 2, 'p': 5}], 'MOnce': [{}, {'a': 3}], 'MRand': [{}, {'a': 2}],
               'nimble.KNNClassifier': [{}, {'k': 1}, {'k': 3}], 'nimble.RidgeRegression': [{'lamb': 0.5}, {'lamb': 2}],
               'nimble.MultiOutputRidgeRegression': [{'lamb': 1}], 'sklearn.KNeighborsClassifier': [{'n_neighbors': 1}, {'n_neighbors': 3}],
               'sklearn.DecisionTreeRegressor': [{}, {'max_depth': 1}], 'sklearn.LogisticRegression': [{'C': 0.5}]}.get(name, [{}])
    ref = {}
    for fnames, pnames, ltype in itertools.product((True, False), (True, False), (rtype, TYPES[(TYPES.index(rtype) + 1) % 4])):
        X = Tab(rows, ['p%d' % i for i in range(6)] if pnames else None, ['x', 'y', 'z'] if fnames else None)
        T = Tab(tests, ['t%d' % i for i in range(4)] if pnames else None, ['x', 'y', 'z'] if fnames else None)
        ln = ['lab', 'lab2'][:w] if fnames else None
        Y, TY = Tab(labs, X.pn if pnames else None, ln), Tab(tlabs, None, ln)
        for form in ('obj', 'name', 'index', 'last'):
            if form != 'obj' and (w > 1 or ltype != rtype) or form == 'name' and not fnames:
                continue
            at = {'obj': None, 'name': 1, 'index': 1, 'last': 3}[form]

            def mk():
                if form == 'obj':
                    return build(X, rtype), build(Y, ltype), build(T, rtype), build(TY, ltype)
                lab = {'name': 'lab', 'index': 1, 'last': np.int64(3)}[form]
                ins = lambda t, l: Tab([list(r[:at]) + [s[0]] + list(r[at:]) for r, s in zip(t.rows, l.rows)], t.pn,
                                       t.fn[:at] + [l.fn[0]] + t.fn[at:], 4)
                return build(ins(X, Y), rtype), lab, build(T, rtype), build(TY, ltype)
            for args in argsets:
                for how in ('dict', 'kwargs', 'both'):
                    what = '%s %s/%s labels %s names %r %r arguments %r %s' % (name, rtype, ltype, form, fnames, pnames, args, how)
                    rec.state(what)
                    ad, kw = (dict(args), {}) if how == 'dict' else ({}, dict(args)) if how == 'kwargs' else \
                        ({k: v for k, v in args.items() if k in 'a'}, dict(args))
                    given = dict(ad)
                    x, y, t, ty = mk()
                    objs = [o for o in (x, y, t, ty) if isinstance(o, nimble.core.data.Base)]
                    before = [observe(o) for o in objs]
                    g0 = digest()
                    try:
                        tl = nimble.train(L, x, y, arguments=ad, randomSeed=5, useLog=False, **kw)
                        p1 = tl.apply(t, useLog=False)
                        p2 = nimble.trainAndApply(L, x, y, t, arguments=ad, randomSeed=5, useLog=False, **kw)
                        p3 = nimble.trainAndApply(L, x, y, arguments=ad, randomSeed=5, useLog=False, **kw)
                        s1 = tl.test(perf, t, ty, useLog=False)
                        s2 = nimble.trainAndTest(L, perf, x, y, t, ty, arguments=ad, randomSeed=5, useLog=False, **kw)
                        s3 = nimble.trainAndTestOnTrainingData(L, perf, x, y, arguments=ad, randomSeed=5, useLog=False, **kw)
                        s4 = nimble.trainAndTest(L, perf, x, y, arguments=ad, randomSeed=5, useLog=False, **kw)
                        tl.retrain(x, y, randomSeed=5, useLog=False)
                        p4 = tl.apply(t, useLog=False)
                    except Exception as e:
                        rec.violation('fails|' + what, repr(e))
                        continue
                    rec.step(9)
                    if digest() != g0:
                        rec.violation('global randomness used|' + what)
                    if ad != given:
                        rec.violation('arguments changed|' + what, repr(ad))
                    if [observe(o) for o in objs] != before:
                        rec.violation('inputs changed|' + what, repr([observe(o) for o in objs]))
                    v1, v2, v3, v4 = map(values, (p1, p2, p3, p4))
                    if v1 != v2 or v1 != v4:
                        rec.violation('trainAndApply|' + what, '%r %r %r' % (v1, v2, v4))
                    key = repr(args), form == 'last' and name.startswith('M') and False
                    if ref.setdefault(key, v1[0]) != v1[0]:
                        rec.violation('form of the input changes the predictions|' + what, '%r %r' % (ref[key], v1[0]))
                    if ref.setdefault(('t',) + key, v3[0]) != v3[0]:
                        rec.violation('predictions of the training data|' + what, '%r %r' % (ref[('t',) + key], v3[0]))
                    if list(v1[1]) != list(T.pn) or list(v1[2]) != list(Y.fn):
                        rec.violation('names|' + what, '%r not %r %r' % (v1[1:], T.pn, Y.fn))
                    if list(v3[1]) != list(X.pn) or len(v3[0]) != 6:
                        rec.violation('names of the training predictions|' + what, '%r not %r' % (v3, X.pn))
                    want = sum((i + 1) * abs(a - b) for i, (r, s) in enumerate(zip(tlabs, values(p1)[0])) for a, b in zip(r, s))
                    if abs(s1 - want) > 1e-4 or s1 != s2:
                        rec.violation('trainAndTest|' + what, '%r %r %r' % (want, s1, s2))
                    want = sum((i + 1) * abs(a - b) for i, (r, s) in enumerate(zip(labs, v3[0])) for a, b in zip(r, s))
                    if abs(s3 - want) > 1e-4 or s3 != s4:
                        rec.violation('test on training data|' + what, '%r %r %r' % (want, s3, s4))
                    rec.outcome((tuple(map(tuple, v1[0])), s1))
        # refusals
        x, y, t, ty = build(X, rtype), build(Y, rtype), build(T, rtype), build(TY, rtype)
        bad = [('labels of another length', lambda: nimble.train(L, x, build(Tab(labs + labs[:1]), rtype), useLog=False)),
               ('no such argument', lambda: nimble.train(L, x, y, nosuch=1, useLog=False)),
               ('arguments disagree', lambda: nimble.trainAndApply(L, x, y, t, arguments={'a': 1}, a=2, useLog=False)),
               ('arguments no dict', lambda: nimble.train(L, x, y, arguments=[1], useLog=False)),
               ('data no object', lambda: nimble.train(L, [[1, 2]], y, useLog=False)),
               ('labels no object', lambda: nimble.train(L, x, [[1, 2]], useLog=False)),
               ('no such labels', lambda: nimble.train(L, x, 'nosuch', useLog=False)),
               ('no such learner', lambda: nimble.train('nimble.Nosuch', x, y, useLog=False)),
               ('test of other features', lambda: nimble.trainAndApply(L, x, y, build(Tab([[1, 2], [2, 3], [3, 4]]), rtype), useLog=False)),
               ('test labels of another length', lambda: nimble.trainAndTest(L, perf, x, y, t, y, useLog=False))]
        for what, f in bad:
            what = '%s|%s %s %r' % (what, name, rtype, fnames)
            rec.state(what)
            rec.step()
            before = [observe(o) for o in (x, y, t, ty)]
            try:
                f()
                rec.violation('not refused|' + what)
            except (nimble.exceptions.NimbleException, KeyError, IndexError):
                rec.rejected += 1
            except Exception as e:
                rec.violation('wrong exception|' + what, repr(e))
            if [observe(o) for o in (x, y, t, ty)] != before:
                rec.violation('changed by refusal|' + what)


def t_seed(rec, rtype, tier):
    """randomness of learners comes from the seed alone"""
    x, y, t = build(X1, rtype), build(Y1, rtype), build(T2, rtype)
    base = {}
    for seed in range(20 if tier == 'thorough' else 6):
        for glob in (1, 2, None):
            for fn in ('train', 'trainAndApply', 'retrain'):
                what = 'seed %d after setSeed %r %s %s' % (seed, glob, fn, rtype)
                rec.state(what)
                rec.step()
                if glob:
                    nimble.random.setSeed(glob, useLog=False)
                else:
                    nimble.random.pythonRandom.random()
                g0 = digest()
                if fn == 'train':
                    tl = nimble.train(MRand, x, y, randomSeed=seed, useLog=False)
                    got = tl.apply(t, useLog=False)[0, 0]
                    if tl.randomSeed != seed:
                        rec.violation('randomSeed|' + what, repr(tl.randomSeed))
                elif fn == 'retrain':
                    tl = nimble.train(MRand, x, y, randomSeed=seed + 1, useLog=False)
                    tl.retrain(x, y, randomSeed=seed, useLog=False)
                    got = tl.apply(t, useLog=False)[0, 0]
                    if tl.randomSeed != seed:
                        rec.violation('randomSeed|' + what, repr(tl.randomSeed))
                else:
                    got = nimble.trainAndApply(MRand, x, y, t, randomSeed=seed, useLog=False)[0, 0]
                if digest() != g0:
                    rec.violation('global randomness used|' + what)
                if base.setdefault(seed, got) != got:
                    rec.violation('not determined by the seed|' + what, '%r %r' % (base[seed], got))
        # without a seed: determined by the global state, and reproducible from the reported seed
        nimble.random.setSeed(seed, useLog=False)
        a = nimble.train(MRand, x, y, useLog=False)
        va = a.apply(t, useLog=False)[0, 0]
        nimble.random.setSeed(seed, useLog=False)
        b = nimble.train(MRand, x, y, useLog=False)
        vb = b.apply(t, useLog=False)[0, 0]
        c = nimble.train(MRand, x, y, randomSeed=a.randomSeed, useLog=False)
        vc = c.apply(t, useLog=False)[0, 0]
        d = nimble.train(MRand, x, y, useLog=False).apply(t, useLog=False)[0, 0]
        what = 'setSeed %d %s' % (seed, rtype)
        rec.state(what)
        if va != vb or va != vc:
            rec.violation('not reproducible|' + what, '%r %r %r' % (va, vb, vc))
        if va == d:
            rec.violation('the same randomness twice|' + what, '%r' % va)
    if len(set(base.values())) != len(base):
        rec.violation('seeds agree|%s' % rtype, repr(base))


# ------------------------------------------------------------- (c)
def t_scores(rec, rtype, tier):
    rows = [[1, 0], [2, 5], [0, 0], [7, 1], [3, 3]]
    tests = [[1, 1], [0, 4], [6, 0]]
    alphabets = [(1, 2), (3, 1, 2), (0, 5), (-1, 1)]
    for alph in alphabets:
        for lab in itertools.product(alph, repeat=5):
            if len(set(lab)) != len(alph):
                continue
            for names in (True, False):
                what = 'scores %s labels %r names %r' % (rtype, lab, names)
                rec.state(what)
                rec.step()
                X = Tab(rows, None, ['x', 'y'] if names else None)
                T = Tab(tests, ['t0', 't1', 't2'] if names else None, X.fn if names else None)
                Y = Tab([[v] for v in lab], None, ['lab'] if names else None)
                x, y, t = build(X, rtype), build(Y, rtype), build(T, rtype)
                order = sorted(set(lab))
                want = [[lab.count(v) + ((sum(r) * (3 + order.index(v))) % 5) / 10 for v in order] for r in tests]
                best = [order[w.index(max(w))] for w in want]
                try:
                    tl = nimble.train(MScores, x, y, useLog=False)
                    alls = tl.apply(t, scoreMode='allScores', useLog=False)
                    raw = tl.getScores(t)
                    bst = tl.apply(t, scoreMode='bestScore', useLog=False)
                    lbl = tl.apply(t, useLog=False)
                    alls2 = nimble.trainAndApply(MScores, x, y, t, scoreMode='allScores', useLog=False)
                except Exception as e:
                    rec.violation('fails|' + what, repr(e))
                    continue
                va = values(alls)
                if va[0] != [[round(v, 7) for v in w] for w in want] or values(raw)[0] != va[0] or values(alls2) != va:
                    rec.violation('scores|' + what, '%r not %r' % (va[0], want))
                if [float(v) for v in va[2]] != [float(v) for v in order] or list(va[1]) != T.pn:
                    rec.violation('names of scores|' + what, '%r' % (va[1:],))
                if [r[0] for r in values(lbl)[0]] != [float(v) for v in best]:
                    rec.violation('labels|' + what, '%r not %r' % (values(lbl)[0], best))
                wb = [[float(v), round(max(w), 7)] for v, w in zip(best, want)]
                vb = values(bst)
                if vb[0] != wb or list(vb[1]) != T.pn or names and list(vb[2]) != ['lab', 'bestScore']:
                    rec.violation('best scores|' + what, '%r not %r' % (vb, wb))
                rec.outcome(tuple(map(tuple, va[0])))
