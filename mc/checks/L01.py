"""L01: a call is logged exactly once if and only if logging is enabled for it, and logging has no other effect."""
import functools
import itertools
import json
import numpy as np
import nimble
from nimble import match
from mc import elem, reads, reshape  # noqa: F401
from mc.checks import D01, D06, D09
from mc.checks.R02 import digest
from mc.logs import quick_sqlite, use_new_log, Counter, shown, blocks, install, forced
from mc.model import Tab
from mc.obs import TYPES, Inconsistent, build, observe, is_base
from mc.ops import real_apply
from mc.variants import make, applicable

PROPERTY = 'L01'
LEVEL = 'model_checking'
RULE = ('every call of the structural, element and reshaping alphabets, of the read catalogue and of the creation, random and learning functions (all label and '
        'argument forms, functions, arrays and objects as arguments) x storage type x table and view x (useLog None, True, False) x (enabledByDefault True, False) x '
        '(enableDeepLogging True, False), on success and when refused: the number of new entries is 1 (or the documented number for tuning) if enabled and 0 otherwise, '
        'the result, the objects, their names and the random state are those of the same call without logging, and the entry names the call and the object')
ASSUMPTIONS = ['entries written by calls made inside user functions are not considered', 'the log file can be written']

MODES = [(None, 'True'), (False, 'True'), (True, 'False'), (None, 'False'), (True, 'True'), (False, 'False')]
SETS = {'D01': ('full', lambda: [x for x in D01.inits(None)], [0, 3, 7]), 'D06': (('te', 'ce', 'writes'), D06.inits, [0, 2, 8]),
        'D09': ('all', D09.inits, [0, 2, 13, 14])}
MODS = {'D01': D01, 'D06': D06, 'D09': D09}


def tasks(tier):
    out = []
    for key, (levels, inits, which) in SETS.items():
        ts = inits()
        for i in (range(len(ts)) if tier == 'thorough' else which):
            if i >= len(ts):
                continue
            for r, rtype in enumerate(TYPES):
                if ts[i][0] != 'n' and rtype == 'Sparse':
                    continue
                for lv in ([levels] if isinstance(levels, str) else levels):
                    for part in range(1 if tier == 'thorough' else 2):
                        out.append(['ops', key, i, rtype, lv, part, 1 if tier == 'thorough' else 2])
    for rtype in TYPES:
        out.append(['reads', rtype])
        out.append(['forms', rtype])
        out.append(['create', rtype])
        for k in range(4):
            out.append(['learn', rtype, k])
    out.append(['random'])
    return out


READY = []


def run_task(task, rec):
    if not READY:
        quick_sqlite()
        install()
        READY.append(1)
    nimble.settings.set('logger', 'enableDeepLogging', 'False')
    nimble.random.setSeed(3, useLog=False)
    path = use_new_log()
    try:
        globals()['t_' + task[0]](rec, Counter(path), *task[1:])
    finally:
        nimble.settings.set('logger', 'enabledByDefault', 'False')
        nimble.core.logger.active.cleanup()
    rec.trace()


def enabled(use, default):
    return use if use is not None else default == 'True'


def look(x):
    if is_base(x):
        try:
            return (observe(x), x.name, x.getTypeString())
        except Inconsistent as e:
            return str(e)
    if isinstance(x, (list, tuple)):
        return [look(v) for v in x]
    if isinstance(x, dict):
        return {str(k): look(v) for k, v in x.items()}
    return reads.canon(x)


def compared(rec, counter, what, run, objs, modes=MODES, entries=1, check=None):
    """
    run(useLog) -> number of calls it made successfully, result; run on fresh objects each time (objs()).
    """
    base = None
    for use, default in [(False, 'False')] + [m for m in modes if m != (False, 'False')]:
        nimble.settings.set('logger', 'enabledByDefault', default)
        state = nimble.random.numpyRandom.get_state(), nimble.random.pythonRandom.getstate()
        made = objs()
        before = counter.count()
        rec.step()
        try:
            calls, ret = run(use, *made)
            err = None
        except Exception as e:
            calls, ret, err = None, None, type(e).__name__
        new = counter.count() - before
        after = digest()
        nimble.random.numpyRandom.set_state(state[0])
        nimble.random.pythonRandom.setstate(state[1])
        got = (err, look(ret), [look(o) for o in made], after)
        name = '%s|useLog=%s|default=%s' % (what, use, default)
        if base is None:
            base = got
        elif got != base:
            rec.violation('logging changes the result|' + name, '%r not %r' % (got[:3], base[:3]))
        want = calls if calls is not None else 0
        if err is not None:
            rec.rejected += 1
            want = run.ok() if hasattr(run, 'ok') else 0
        want = want * entries if enabled(use, default) else 0
        if new != want:
            rec.violation('entries|' + name, '%d new entries, not %d; %s' % (new, want, err))
        if check is not None and new == 1 and err is None:
            check(name, made, ret)
        rec.state((what, use, default))
        rec.outcome((new, err))


class Op:
    def __init__(self, fn):
        self.fn = fn
        self.n = 0

    def __call__(self, use, *objs):
        with forced(use) as calls:
            self.calls = calls
            ret = self.fn(*objs)
        return len(calls), ret

    def ok(self):
        return len(self.calls)


def last():
    b, _ = blocks(shown(levelOfDetail=3, maximumEntries=1, mostSessionsAgo=None))
    return ' '.join(b[-1][1].split()) if b else ''


def t_ops(rec, counter, key, i, rtype, level, part, parts):
    mod = MODS[key]
    t = SETS[key][1]()[i][1]
    ops = mod.alphabet(level, rtype)(t)
    seen = set()
    for k, op in enumerate(ops):
        if k % parts != part:
            continue
        kind = (op[0], op[1])
        first = kind not in seen
        seen.add(kind)
        variant = 'fresh'

        def objs():
            o = make(t, rtype, variant)
            o.name = 'objq'
            return (o,)
        what = '%s %s %s' % (rtype, json.dumps(spec(t)), json.dumps(op))

        def content(name, made, ret):
            label = run.calls[0][0]
            text = last()
            axis = {'p': 'points.', 'f': 'features.'}.get(op[1], '')
            axis = {'split': 'points.', 'combine': 'points.', 'comb': 'points.', 'parse': 'features.'}.get(op[0], axis)
            if ('objq.%s%s' % (axis, label)) not in text.replace(' ', ''):
                rec.violation('entry|' + name, '%r does not name objq.%s%s' % (text[:200], axis, label))
            if is_base(run.calls[0][2]) and 'Returned:' not in text:
                rec.violation('entry without result|' + name, text[:300])
        run = Op(lambda o: real_apply(o, op))
        compared(rec, counter, what, run, objs, MODES if first else MODES[:2], check=content if first and op[0] not in ('transpose',) else None)


def spec(t):
    return [t.rows, t.pn, t.fn]


def t_reads(rec, counter, rtype):
    t = Tab([[1, 0, 2], [0, 3, 0], [2, 1, 1]], ['a', None, 'c'], ['x', 'y', None])
    for variant in ('fresh', 'view'):
        if not applicable(t, rtype, variant):
            continue
        for name in reads.names():
            if name.startswith('nimble.data of it'):
                continue            # logged by nimble.data itself
            run = Op(lambda o: reads.run(name, o))
            compared(rec, counter, '%s/%s %s' % (rtype, variant, name), run, lambda: (make(t, rtype, variant),), MODES[:2])


# argument forms the alphabets do not have

class Callable:
    def __call__(self, x):
        return x


def adder(n, x):
    return x


def boolean(n, x):
    return True


FORMS = [
    ('points.extract', (np.array([0, 1]),)), ('features.extract', (np.array([0, 1]),)), ('points.copy', (np.array(['a', 'c'], dtype=object),)),
    ('points.delete', ((0, 2),)), ('points.retain', (range(2),)), ('features.copy', (['x', 'z'],)), ('features.copy', ('y',)), ('points.copy', (np.int64(1),)),
    ('points.copy', (lambda p: p[0] > 0,)), ('points.extract', (functools.partial(boolean, 1),)), ('points.copy', ('x > 0',)), ('features.copy', ('a > 0',)),
    ('points.calculate', (sum,)), ('features.calculate', (nimble.calculate.mean,)), ('points.calculate', (functools.partial(adder, 1),)),
    ('points.calculate', (Callable(),)), ('features.transform', (lambda f: [v * 2 for v in f],)), ('features.transform', (Callable(),)),
    ('points.transform', (functools.partial(adder, 2), np.array([0, 1]))), ('features.calculate', (len, ['x', 'y'])),
    ('transformElements', (lambda v: v + 1,)), ('transformElements', ({0: 5, 1: 7},)), ('transformElements', (abs,)), ('transformElements', (float,)),
    ('transformElements', (functools.partial(adder, 1), np.array([0]))), ('calculateOnElements', (np.sqrt,)), ('calculateOnElements', ({1: 2}, [0], ['x'])),
    ('matchingElements', (match.zero,)), ('matchingElements', (0,)), ('matchingElements', ('> 1',)), ('matchingElements', (lambda v: v > 1,)), ('matchingElements', ([0, 1],)),
    ('points.matching', (match.anyMissing,)), ('features.matching', (lambda f: True,)), ('points.matching', ('x == 0',)),
    ('points.fillMatching', (0, match.missing)), ('features.fillMatching', (nimble.fill.mean, match.nonNumeric)), ('features.fillMatching', (nimble.fill.constant, 0)),
    ('features.fillMatching', (9, [0, 1])), ('points.fillMatching', (0, lambda v: v == 1)), ('features.fillMatching', (0, 'MASK')),
    ('points.sort', ('x',)), ('points.sort', (lambda p: p[0],)), ('features.sort', (functools.partial(adder, 1),)), ('points.sort', (['x', 'y'],)), ('points.sort', (nimble.random.pythonRandom.random,)),
    ('points.permute', ()), ('features.permute', ([2, 0, 1],)), ('points.permute', (np.array([1, 0, 2]),)),
    ('points.insert', (0, 'SAME')), ('features.append', ('SAME',)), ('points.replace', ('SAME',)), ('features.replace', ('ONE', ['x'])),
    ('replaceRectangle', ('SAME', 0, 0)), ('replaceRectangle', (7, 0, 0, 1, 1)), ('replaceRectangle', (np.int64(7), 'a', 'x', 'c', 'y')), ('merge', ('SAME', 'union', 'union')), ('merge', ('SAME', 'left', 'union', 'x')),
    ('points.setNames', (['q', 'r', 's'],)), ('points.setNames', ({'a': 'q'},)), ('features.setNames', ('q', 0)), ('features.setNames', (None,)), ('points.setNames', (np.array(['q', 'r', 's']),)),
    ('features.normalize', (nimble.calculate.meanNormalize,)), ('features.normalize', (nimble.calculate.meanStandardDeviationNormalize, 'SAME')), ('features.normalize', (lambda f: f,)),
    ('features.normalize', (lambda f, g: (f, g), 'SAME', ['x', 'y'])), ('features.splitByParsing', (0, lambda v: [v, v], ['n1', 'n2'])),
    ('points.splitByCollapsingFeatures', (['x', 'y'], 'k', 'v')), ('points.combineByExpandingFeatures', ('x', 'y')), ('points.mapReduce', (lambda p: [(p[0], p[1])], lambda k, v: (k, sum(v)))),
    ('groupByFeature', ('x',)), ('groupByFeature', (['x', 'y'],)), ('groupByFeature', ('x', True)), ('trainAndTestSets', (0.4,)), ('trainAndTestSets', (0.4, 'x')), ('trainAndTestSets', (0.4, 'LAB')),
    ('trainAndTestSets', (0.4, 0, False)), ('replaceFeatureWithBinaryFeatures', ('x',)), ('transformFeatureToIntegers', (1,)), ('transpose', ()), ('flatten', ()), ('flatten', ('feature',)), ('unflatten', ((3, 3),)),
    ('features.repeat', (2, True)), ('points.repeat', (2, False)), ('report', ()), ('features.report', ()), ('points.extract', ('nothere',)), ('features.sort', (17,)), ('points.insert', (0, 'OTHER')),
    ('features.setNames', (['x', 'x', 'z'],)), ('transformElements', (None,)), ('merge', ('OTHER', 'strict', 'strict')), ('replaceRectangle', ('SAME', 2, 2)),
]


def t_forms(rec, counter, rtype):
    t = Tab([[1, 0, 2], [0, 3, 0], [2, 1, 1]], ['a', 'b', 'c'], ['x', 'y', 'z'])
    for n, (call, args) in enumerate(FORMS):
        for named in (False, True):
            for view in (False, True):
                for kw in (False, True):
                    def objs():
                        o = build(t, rtype)
                        if view:
                            o = o.view()
                        out = [o]
                        for a in args:
                            if not isinstance(a, str) or not a.isupper():
                                continue
                            if a == 'SAME':
                                x = build(Tab([[5, 6, 7], [8, 9, 1], [2, 4, 3]], ['a', 'e', 'f'] if call == 'merge' else (['a', 'b', 'c'] if 'features' in call or 'replace' in call else ['d', 'e', 'f']),
                                              ['u', 'v', 'w'] if call == 'features.append' else ['x', 'y', 'z']), rtype)
                            elif a == 'ONE':
                                x = build(Tab([[5], [6], [7]], ['a', 'b', 'c'], ['x']), rtype)
                            elif a == 'LAB':
                                x = build(Tab([[5], [6], [7]]), 'Matrix')
                            elif a == 'MASK':
                                x = nimble.data([[True, False, True]] * 3, useLog=False, returnType='Matrix')
                            else:
                                x = build(Tab([[1, 2]]), rtype)
                            out.append(x)
                        if named:
                            for m, x in enumerate(out):
                                x.name = 'objq%d' % m
                        return out

                    def run(use, o, *rest):
                        rest = list(rest)
                        a = [rest.pop(0) if isinstance(x, str) and x.isupper() else x for x in args]
                        target = o
                        for part in call.split('.'):
                            target = getattr(target, part)
                        k = {} if use is None else {'useLog': use}
                        if kw:
                            import inspect
                            names = [p for p in inspect.signature(target).parameters]
                            k.update(zip(names, a))
                            a = []
                        return (0 if call.endswith('repeat') and False else 1), target(*a, **k)
                    what = '%s%s %s%s%s form %d' % (rtype, ' view' if view else '', call, args, ' kw' if kw else '', n)
                    what = what if ' at 0x' not in what else '%s%s %s kw=%s form %d' % (rtype, ' view' if view else '', call, kw, n)

                    def content(name, made, ret):
                        text = last()
                        if call.endswith('report'):
                            if 'Report' not in text:
                                rec.violation('entry|' + name, text[:200])
                            return
                        if named and ('objq0.' + call) not in text.replace(' ', ''):
                            rec.violation('entry|' + name, '%r does not name objq0.%s' % (text[:200], call))
                        if named and any(isinstance(x, str) and x.isupper() for x in args) and 'objq1' not in text and 'LAB' not in args:
                            rec.violation('entry without argument|' + name, text[:300])
                    compared(rec, counter, what + (' named' if named else ''), run, objs, MODES if not view and not kw else MODES[:2], check=content if not kw else None)


def t_create(rec, counter, rtype):
    srcs = [[[1, 2], [3, 4]], np.array([[1, 2], [3, 4]]), {'x': [1, 2], 'y': [3, 4]}, [{'x': 1}, {'x': 2}], [], 'OBJ', [['a', 'b'], ['c', 'd']]]
    for src, name, kw in itertools.product(srcs, (None, 'objq'), ({}, {'pointNames': ['p', 'q']}, {'featureNames': True}, {'treatAsMissing': [1], 'replaceMissingWith': 0},
                                                                  {'keepPoints': [0]}, {'convertToType': float}, {'featureNames': ['x', 'x']})):
        def run(use, *objs):
            k = dict(kw)
            if use is not None:
                k['useLog'] = use
            s = objs[0] if objs else src
            return 1, nimble.data(s, returnType=rtype, name=name, **k)

        def content(nm, made, ret):
            text = last()
            if name is not None and 'Loaded: objq' not in text:
                rec.violation('entry|' + nm, text[:200])
            if '# of points %d # of features %d' % (len(ret.points), len(ret.features)) not in text:
                rec.violation('entry|' + nm, text[:200])
        compared(rec, counter, 'data %r %s %s %r' % (src, rtype, name, kw), run, (lambda: (build(Tab([[1, 2], [3, 4]], ['a', 'b'], ['x', 'y']), 'List'),)) if isinstance(src, str) else tuple, check=content)
    for kw in ({}, {'sparsity': 0.5, 'numericType': 'int'}, {'randomSeed': 5}):
        compared(rec, counter, 'random.data %s %r' % (rtype, kw), lambda use: (1, nimble.random.data(2, 3, **dict({'sparsity': 0}, **kw), returnType=rtype, **({} if use is None else {'useLog': use}))), tuple)


def t_random(rec, counter):
    for seed in (0, 7, None, -1, 'x'):
        if seed is not None: # takes the randomness of the operating system
            compared(rec, counter, 'setSeed %r' % (seed,), lambda use: (1, nimble.random.setSeed(seed, **({} if use is None else {'useLog': use}))), tuple)

        def control(use):
            k = {} if use is None else {'useLog': use}
            with nimble.random.alternateControl(seed, **k):
                nimble.random.pythonRandom.random()
            return 2, None
        compared(rec, counter, 'alternateControl %r' % (seed,), control, tuple)
    for head, info in itertools.product(('', 'h', 'x' * 50, 'x' * 51, 5), ('', 'text', [], [1, 'a', None], {'a': 1, 'b': {'c': float('nan')}}, 5, None, ('t',), {'f': len})):
        nimble.settings.set('logger', 'enabledByDefault', 'False')
        before = counter.count()
        valid = isinstance(head, str) and len(head) <= 50 and isinstance(info, (str, list, dict))
        try:
            nimble.log(head, info)
            ok = True
        except Exception:
            ok = False
        rec.step()
        if ok != valid or counter.count() - before != int(valid):
            rec.violation('log %r %r' % (head, info))
        elif ok:
            nimble.showLog.__call__
            text = last()
            want = info if isinstance(info, str) else None
            if ('User - ' + head).strip() not in text or (want and want not in text):
                rec.violation('log shown %r %r' % (head, info), text)


class LMean(nimble.CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=1, o=None):
        self.v = sum(trainY) / max(1, len(trainY)) * a

    def incrementalTrain(self, trainX, trainY, a=1, o=None):
        self.v = 1.0

    def apply(self, testX, p=0):
        return nimble.data([[self.v + p]] * len(testX.points), useLog=False)


def t_learn(rec, counter, rtype, part):
    T = Tab([[1, 0, 2], [0, 3, 0], [2, 1, 1], [4, 1, 3], [5, 5, 1], [6, 1, 2]], ['a', 'b', 'c', 'd', 'e', 'f'], ['x', 'y', 'z'])
    Y = Tab([[1], [0], [1], [0], [1], [1]])
    rmse = nimble.calculate.rootMeanSquareError
    calls = []

    def given(y, X, L):
        return {'obj': L, 'name': 'x', 'index': 0}[y]
    nimble.train(LMean, build(T, rtype), build(Y, rtype), useLog=False) # known as custom.LMean from here
    learners = [LMean, 'custom.LMean', 'nimble.RidgeRegression', 'sklearn.LinearRegression'][part:part + 1]
    for learner in learners:
        argsets = ([{}, {'a': 2}, {'o': 'OBJ'}, {'a': 'bad'}] if learner is LMean else [{}, {'a': 3, 'p': 1}] if learner == 'custom.LMean' else
                   [{}, {'lamb': 0.5}] if learner == 'nimble.RidgeRegression' else [{}, {'fit_intercept': False}, {'nope': 1}])
        for args, y, named in itertools.product(argsets, ('obj', 'name', 'index'), (False, True)):
            def objs():
                x, l = build(T, rtype), build(Y, rtype)
                if named:
                    x.name, l.name = 'trX', 'trY'
                return x, l, build(Tab([[1, 1], [2, 0]] if y != 'obj' else [[1, 1, 1], [2, 0, 1]], ['k', 'l']), rtype), build(Tab([[1], [0]]), rtype)

            def a_(l):
                return {k: (l if v == 'OBJ' else v) for k, v in args.items()}
            k_ = lambda use: {} if use is None else {'useLog': use}
            todo = [
                ('train', 1, lambda use, x, l, tx, ty: (1, bare(nimble.train(learner, x, given(y, x, l), arguments=a_(l), **k_(use))))),
                ('trainAndApply', 1, lambda use, x, l, tx, ty: (1, nimble.trainAndApply(learner, x, given(y, x, l), tx, arguments=a_(l), **k_(use)))),
                ('trainAndTest', 1, lambda use, x, l, tx, ty: (1, nimble.trainAndTest(learner, rmse, x, given(y, x, l), tx, ty, arguments=a_(l), **k_(use)))),
                ('onTraining', 1, lambda use, x, l, tx, ty: (1, nimble.trainAndTestOnTrainingData(learner, rmse, x, given(y, x, l), arguments=a_(l), **k_(use)))),
            ]
            if named:
                todo += [('trained learner', 1, functools.partial(trained, learner, y, given, a_))]
            for nm, e, fn in todo:
                if learner == 'sklearn.LinearRegression' and 'nope' in args:
                    pass

                def content(name, made, ret, nm=nm):
                    text = last()
                    if nm.startswith('train') and nm != 'trained learner' and (nm + '(') not in text:
                        rec.violation('entry|' + name, text[:200])
                    if named and nm != 'trained learner' and ('trX' not in text or (y == 'obj' and 'trY' not in text)):
                        rec.violation('entry without data|' + name, text[:400])
                compared(rec, counter, '%s %s %s %r %s named=%s' % (nm, rtype, getattr(learner, '__name__', learner), args, y, named), fn, objs, MODES if y != 'index' else MODES[:2], entries=e, check=content)
        if learner in (LMean, 'nimble.RidgeRegression'):
            arg = 'a' if learner is LMean else 'lamb'
            for deep, sel, val, use, default in itertools.product(('True', 'False'), ('brute force', 'consecutive'), ('cross validation', 'leave one out', 'proportion', 'data', 'group'),
                                                                  (None, True, False), ('True', 'False')):
                for fn in ('train', 'trainAndApply', 'trainAndTest'):
                    tuned(rec, counter, learner, rtype, arg, deep, sel, val, use, default, fn)
        for deep, folds, use, default in itertools.product(('True', 'False'), (2, 3), (None, True, False), ('True', 'False')):
            x, l = build(T, rtype), build(Y, rtype)
            nimble.settings.set('logger', 'enableDeepLogging', deep)
            nimble.settings.set('logger', 'enabledByDefault', default)
            before = counter.count()
            nimble.trainAndTestOnTrainingData(learner, rmse, x, l, crossValidationFolds=folds, **({} if use is None else {'useLog': use}))
            rec.step()
            want = (2 + (folds if deep == 'True' else 0)) if enabled(use, default) else 0
            if counter.count() - before != want:
                rec.violation('cross validation entries|%s %s deep=%s folds=%d useLog=%s default=%s' % (rtype, learner, deep, folds, use, default), '%d not %d' % (counter.count() - before, want))
            nimble.settings.set('logger', 'enableDeepLogging', 'False')
    if part == 0:
        for use, default in MODES:
            nimble.settings.set('logger', 'enabledByDefault', default)
            k = {} if use is None else {'useLog': use}
            x, l = build(T, rtype), build(Tab([[NANV, 1], [2, NANV], [3, 3]]), rtype)
            for nm, fn in (('fillMatching', lambda: nimble.fillMatching('nimble.KNNImputation', match.missing, l, arguments={'mode': 'regression', 'k': 1}, **k)),
                           ('normalizeData', lambda: nimble.normalizeData('sklearn.StandardScaler', x, with_mean=False, **k)),
                           ('normalizeData2', lambda: nimble.normalizeData('sklearn.StandardScaler', x, testX=build(T, rtype), with_mean=False, **k))):
                before = counter.count()
                fn()
                rec.step()
                if counter.count() - before != int(enabled(use, default)):
                    rec.violation('%s entries|%s useLog=%s default=%s' % (nm, rtype, use, default), counter.count() - before)


NANV = float('nan')


def bare(tl):
    return [tl.learnerName, repr(sorted(tl.arguments))]


def trained(learner, y, given, a_, use, x, l, tx, ty):
    """methods of a trained learner, each logged once"""
    k = {} if use is None else {'useLog': use}
    tl = nimble.train(learner, x, given(y, x, l), arguments=a_(l), useLog=False)
    out = [tl.apply(tx, **k), tl.test(nimble.calculate.rootMeanSquareError, tx, ty, **k)]
    n = 2
    tl.retrain(x, given(y, x, l), **k)
    n += 1
    if learner is LMean:
        tl.incrementalTrain(x, given(y, x, l), **k)
        n += 1
    tl.getAttributes()
    try:
        tl.getScores(tx)
    except Exception:
        pass
    return n, out


def tuned(rec, counter, learner, rtype, arg, deep, sel, val, use, default, fn):
    T = Tab([[1, 0, 2], [0, 3, 0], [2, 1, 1], [4, 1, 3], [5, 5, 1], [6, 1, 2]], None, ['x', 'y', 'z'])
    Y = Tab([[1], [0], [1], [0], [1], [1]])
    x, l = build(T, rtype), build(Y, rtype)
    rmse = nimble.calculate.rootMeanSquareError
    kw = {'folds': 2} if val == 'cross validation' else {'foldFeature': build(Tab([[v] for v in 'aabbcc']), 'List')} if val == 'group' else \
        {'proportion': 0.5} if val == 'proportion' else {'validateX': build(T, rtype), 'validateY': build(Y, rtype)} if val == 'data' else {}
    name = {'group': 'leave one group out'}.get(val, val)
    nf = {'cross validation': 2, 'leave one out': 6, 'group': 3}.get(val, 1)
    nimble.settings.set('logger', 'enableDeepLogging', deep)
    nimble.settings.set('logger', 'enabledByDefault', default)
    names = [x.name, l.name] + [v.name for v in kw.values() if is_base(v)]
    k = {} if use is None else {'useLog': use}
    k[arg] = nimble.Tune([1, 2])
    tuning = nimble.Tuning(selection=sel, validation=name, performanceFunction=rmse, **kw)
    before = counter.count()
    rec.step()
    what = '%s %s %s %s deep=%s useLog=%s default=%s %s' % (fn, rtype, sel, val, deep, use, default, getattr(learner, '__name__', learner))
    try:
        if fn == 'train':
            nimble.train(learner, x, l, tuning=tuning, **k)
        elif fn == 'trainAndApply':
            nimble.trainAndApply(learner, x, l, build(T, rtype), tuning=tuning, **k)
        else:
            nimble.trainAndTest(learner, rmse, x, l, build(T, rtype), build(Y, rtype), tuning=tuning, **k)
    except Exception as e:
        rec.violation('tuning fails|' + what, repr(e))
        return
    new = counter.count() - before
    want = 0
    if enabled(use, default):
        want = 2 + (nf * 2 if deep == 'True' and val != 'data' else 0) # no entries for the runs of a single holdout set
    if new != want:
        rec.violation('tuning entries|' + what, '%d not %d' % (new, want))
    now = [x.name, l.name] + [v.name for v in kw.values() if is_base(v)]
    if now != names:
        rec.violation('names of the data changed|' + what, '%r to %r' % (names, now))
    nimble.settings.set('logger', 'enableDeepLogging', 'False')
    rec.state(what)
