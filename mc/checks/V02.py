"""V02: hyperparameter tuning tries what its selection describes and returns the best argument set."""
import contextlib
import io
import itertools
import math
from fractions import Fraction
import nimble
from nimble import Tune, Tuning
from mc.obs import observe, build
from mc.model import Tab

PROPERTY = 'V02'
LEVEL = 'model_checking'
RULE = ('every performance landscape with values {0,1,2} over a grid of argument values x selection (brute force, consecutive with every order and '
        'number of loops, iterative) x validation x optimal direction; the argument sets tried, the results reported and the learner returned are compared '
        'with reference searches (any tie may be broken either way); every Tune range of a grid of start, end, change, type')
ASSUMPTIONS = ['the learner is a custom learner whose performance is a table of its arguments', 'bayesian and storm are checked for the reported results only']
TABLE = {}
LOG = []
OUTER = {}


class VTab(nimble.CustomLearner):
    learnerType = 'regression'

    def train(self, trainX, trainY, a=0, b=0, c=None):
        self.args = (a, b) if c is None else (a, b, c)
        self.rows = len(trainX.points)
        LOG.append((a, b))

    def apply(self, testX):
        v = TABLE[self.args]
        return nimble.data([[v]] * len(testX.points), useLog=False)


class VInc(VTab):
    """an incremental learner: remembers every argument set it has seen"""
    def incrementalTrain(self, trainX, trainY, a=0, b=0):
        self.args = (a, b)
        LOG.append((a, b))


class VApply(nimble.CustomLearner):
    """the argument is only used when applying"""
    learnerType = 'regression'

    def train(self, trainX, trainY):
        self.rows = len(trainX.points)

    def apply(self, testX, a=0, b=0):
        LOG.append((a, b))
        return nimble.data([[TABLE[(a, b)]]] * len(testX.points), useLog=False)


def mean(known, predicted):
    return sum(predicted[i, 0] for i in range(len(predicted.points))) / len(predicted.points)


@nimble.calculate.performanceFunction('min')
def low(known, predicted):
    return mean(known, predicted)


@nimble.calculate.performanceFunction('max')
def high(known, predicted):
    return mean(known, predicted)


AV = {1: [5], 2: [5, 3], 3: [2, 7, 4], 4: [1, 2, 3, 4], 5: [1, 2, 3, 4, 5]}
VALIDATIONS = ['cross validation', 'leave one out', 'proportion', 'data', 0.5, 'leave one group out']


def tasks(tier):
    out = [['tune', t] for t in ('add', 'multiply', 'values')]
    shapes = [(1, 0), (2, 0), (3, 0), (2, 2), (1, 2), (2, 1)] + ([(3, 2), (2, 3), (4, 0)] if tier == 'thorough' else [(3, 2)])
    for sh in shapes:
        k = sh[0] * max(1, sh[1])
        parts = 8 if k >= 6 else 2 if k >= 4 else 1
        for part in range(parts):
            for sel in ('brute force', 'consecutive', 'iterative'):
                out.append(['search', sel, sh, part, parts, tier])
    for sh in itertools.product((1, 2), (1, 2), (1, 2)):
        out.append(['three', list(sh), tier])
    if tier == 'thorough':
        out += [['three', list(sh), tier] for sh in ((3, 1, 2), (2, 1, 3), (1, 3, 2), (3, 2, 1))]
    for sh in [(3, 0), (4, 0), (5, 0)]:
        out.append(['unimodal', sh, tier])
    out += [['random', 'bayesian', tier], ['random', 'storm', tier]]
    out += [['bad', tier]]
    return out


def run_task(task, rec):
    nimble.random.setSeed(3, useLog=False)
    globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


# ------------------------------------------------------------- reference
def better(opt, x, y):
    return x < y if opt == 'min' else x > y


def ref_consecutive(grid, order, loops, table, opt):
    """all (set of tried) that break ties in some way; returns a set of (frozenset tried, best args)."""
    names = list(grid)
    first = tuple(grid[n][0] for n in names)
    outs = set()

    def step(args, tried, k):
        # args: current best, k: position in order*loops
        if k == len(order) * loops:
            outs.add((frozenset(tried), args))
            return
        at = names.index(order[k % len(order)])
        cands = [args[:at] + (v,) + args[at + 1:] for v in grid[names[at]]]
        tried = tried | set(cands)
        best = min((table[c] for c in cands), default=None) if opt == 'min' else max(table[c] for c in cands)
        opts = [c for c in cands if table[c] == best]
        for c in opts:
            step(c, tried, k + 1)
    step(first, frozenset([first]), 0)
    return outs


def make_data():
    X = Tab([[k, 3 * k, k % 2] for k in range(1, 7)], None, ['x', 'y', 'g'])
    return build(X, 'Matrix'), build(Tab([[k] for k in range(6)], None, ['lab']), 'Matrix')


def tuning(sel, val, perf, x, y, **kw):
    if val == 'data':
        kw.update(validateX=x, validateY=y)
    if val == 'leave one group out':
        kw['foldFeature'] = 'g'
    if val == 'cross validation':
        kw['folds'] = 3
    return Tuning(selection=sel, validation=val, performanceFunction=perf, **kw)


def results_ok(rec, what, tl, t, opt, table, tried=None, inc=False):
    """reported results agree with each other and with the landscape"""
    rs, args = t.allResults, t.allArguments
    tup = [(a.get('a', 0), a.get('b', 0)) for a in args]
    if len(rs) != len(args):
        rec.violation('lengths|' + what, '%r %r' % (rs, args))
    if [float(table[x]) for x in tup] != [float(r) for r in rs]:
        rec.violation('results of other arguments|' + what, '%r %r' % (rs, args))
    if any(better(opt, b, a) for a, b in zip(rs, rs[1:])):
        rec.violation('not sorted|' + what, repr(rs))
    best = (min if opt == 'min' else max)(rs)
    if t.bestResult != best:
        rec.violation('best result|' + what, '%r of %r' % (t.bestResult, rs))
    ba = (t.bestArguments.get('a', 0), t.bestArguments.get('b', 0))
    if table[ba] != best:
        rec.violation('best arguments|' + what, '%r gives %r not %r' % (t.bestArguments, table[ba], best))
    deep = t.deepResults
    if t.validation in ('cross validation', 'leave one out', 'leave one group out'):
        n = {'cross validation': 3, 'leave one out': 6, 'leave one group out': 2}[t.validation]
        if [[float(v) for v in d] for d in deep] != [[float(r)] * n for r in rs]:
            rec.violation('deep results|' + what, repr(deep))
    if tl is not None:
        la = (tl.arguments.get('a', 0), tl.arguments.get('b', 0))
        if la != ba:
            rec.violation('learner arguments|' + what, '%r not %r' % (tl.arguments, t.bestArguments))
        x, y = make_data()
        got = [tl.apply(x, useLog=False)[i, 0] for i in range(6)]
        if [float(v) for v in got] != [float(best)] * 6:
            rec.violation('learner performance|' + what, '%r not %r' % (got, best))
        if getattr(tl._backend, 'rows', None) not in ((3, 6) if t.validation in ('proportion', 0.5) and False else (6,)):
            rec.violation('learner data|' + what, 'trained with %r points' % getattr(tl._backend, 'rows', None))
        if tl.tuning is None or tl.tuning.bestResult != best or tl.tuning.allArguments != args:
            rec.violation('learner tuning|' + what, repr(tl.tuning and tl.tuning.allArguments))
    return tup


def t_search(rec, sel, sh, part, parts, tier):
    na, nb = sh
    grid = {'a': AV[na]}
    if nb:
        grid['b'] = [v + 10 for v in AV[nb]]
    keys = [(a, b) for a in AV[na] for b in (grid['b'] if nb else [0])]
    x, y = make_data()
    before = observe(x), observe(y)
    levels = (0, 1, 2) if len(keys) <= 4 or tier == 'thorough' else (0, 1)
    for k, land in enumerate(itertools.product(levels, repeat=len(keys))):
        if k % parts != part:
            continue
        for full in ((True, False) if nb else (True,)):
            # full: both arguments are Tune; otherwise b is constant
            g = dict(grid) if full else {'a': grid['a']}
            extra = {} if full else {'b': grid['b'][0]}
            table = dict(zip(keys, land))
            TABLE.clear()
            TABLE.update(table)
            vals = VALIDATIONS if len(keys) <= 2 or k % 9 == 4 else ['data', VALIDATIONS[k % 6]]
            if sel == 'iterative':
                vals = ['data']
            for opt in ('min', 'max'):
                perf = low if opt == 'min' else high
                for val in vals:
                    confs = [{}]
                    if sel == 'consecutive':
                        names = list(g)
                        confs = [{'loops': lo} for lo in (1, 2, 3)]
                        if len(names) > 1:
                            confs += [{'loops': lo, 'order': ['b', 'a']} for lo in (1, 2)]
                    for conf in confs:
                        for learner in ((VTab, VApply) if val == 'data' or k % 5 == 0 else (VTab,)):
                            what = '%s %s %s %s %r %r %r %s' % (sel, val, opt, learner.__name__, conf, g, extra, land)
                            rec.state(what)
                            rec.step()
                            one(rec, what, sel, val, opt, perf, conf, learner, g, extra, table, x, y)
                if sel == 'iterative':
                    what = 'iterative data %s VInc %r %r %s' % (opt, g, extra, land)
                    rec.state(what)
                    rec.step()
                    one(rec, what, sel, 'data', opt, perf, {'maxIterations': 4}, VInc, g, extra, table, x, y)
    if (observe(x), observe(y)) != before:
        rec.violation('data changed|%s %s' % (sel, sh))


def one(rec, what, sel, val, opt, perf, conf, learner, g, extra, table, x, y):
    conf = {k: list(v) if isinstance(v, list) else v for k, v in conf.items()}
    t = tuning(sel, val, perf, x, y, **conf)
    args = {n: Tune(list(v)) for n, v in g.items()}
    args.update(extra)
    del LOG[:]
    try:
        tl = nimble.train(learner, x, y, arguments=args, tuning=t, useLog=False)
    except Exception as e:
        rec.violation('fails|' + what, repr(e))
        return
    tup = results_ok(rec, what, tl, t, opt, table)
    names = list(g)
    sub = {n: g[n] for n in names}
    full = [(c[0], c[1] if len(names) > 1 else extra.get('b', 0)) for c in itertools.product(*sub.values())]
    if sel == 'brute force':
        if sorted(tup) != sorted(full):
            rec.violation('tried|' + what, '%r not %r' % (tup, full))
    elif sel == 'consecutive':
        tab1 = {c if len(names) > 1 else (c[0],): table[(c[0], c[1])] for c in full} if len(names) > 1 else {(c[0],): table[c] for c in full}
        refs = ref_consecutive(sub, conf.get('order') or names, conf['loops'], tab1, opt)
        tried = frozenset((c if len(names) > 1 else (c[0],)) for c in tup)
        if len(tup) != len(set(tup)):
            rec.violation('tried twice|' + what, repr(tup))
        if not any(r[0] == tried for r in refs):
            rec.violation('tried|' + what, '%r; not of %r' % (tup, sorted(map(sorted, {r[0] for r in refs}))))
    else:
        if not set(tup) <= set(full):
            rec.violation('tried|' + what, '%r not of %r' % (tup, full))
        mid = tuple(sorted(g[n])[len(g[n]) // 2] for n in names)
        if not any((c[:1] if len(names) == 1 else c) == mid for c in tup):
            rec.violation('does not begin with the middle|' + what, '%r' % (tup,))
    rec.outcome((sel, tuple(tup), t.bestResult))


def t_unimodal(rec, sh, tier):
    """iterative selection climbs a landscape with one optimum from its middle"""
    n = sh[0]
    grid = AV[n]
    x, y = make_data()
    for land in itertools.permutations(range(n)):
        top = land.index(max(land))
        if list(land[:top]) != sorted(land[:top]) or list(land[top:]) != sorted(land[top:], reverse=True):
            continue
        srt = sorted(grid)
        for opt in ('min', 'max'):
            sign = 1 if opt == 'max' else -1
            TABLE.clear()
            TABLE.update({(v, 0): sign * p for v, p in zip(srt, land)})
            for learner in (VTab, VApply, VInc):
                for conf in ({}, {'maxIterations': n + 2}, {'maxIterations': 1}, {'threshold': sign * (n - 1)}, {'threshold': sign * (n - 2)},
                             {'maxIterations': 6, 'timeout': 1000}):
                    if learner is VInc and 'maxIterations' not in conf and 'threshold' not in conf:
                        continue
                    what = 'iterative unimodal %s %s %r %r' % (opt, learner.__name__, conf, land)
                    rec.state(what)
                    rec.step()
                    t = tuning('iterative', 'data', low if opt == 'min' else high, x, y, **conf)
                    try:
                        tl = nimble.train(learner, x, y, tuning=t, a=Tune(list(grid)), useLog=False)
                    except Exception as e:
                        rec.violation('fails|' + what, repr(e))
                        continue
                    results_ok(rec, what, tl, t, opt, TABLE)
                    want = sign * (n - 1)
                    if conf.get('maxIterations') == 1:
                        if t.allArguments != [{'a': srt[n // 2]}]:
                            rec.violation('one iteration|' + what, repr(t.allArguments))
                    elif 'threshold' in conf:
                        th = conf['threshold']
                        if better(opt, th, t.bestResult):
                            rec.violation('threshold not reached|' + what, repr(t.allResults))
                        if sum(1 for r in t.allResults if not better(opt, th, r)) != 1:
                            rec.violation('went on after the threshold|' + what, repr(t.allResults))
                    elif t.bestResult != want:
                        rec.violation('optimum not found|' + what, '%r %r' % (t.allResults, t.allArguments))


def t_three(rec, sh, tier):
    """three arguments in every order, one or several values each"""
    x, y = make_data()
    grid = {n: [10 * k + v for v in range(m)] for k, (n, m) in enumerate(zip('abc', sh))}
    keys = list(itertools.product(*grid.values()))
    lands = itertools.product((0, 1), repeat=len(keys)) if len(keys) < 5 or tier == 'thorough' and len(keys) < 9 else \
        [[(k * (i + 3) + i * i) % 5 for i in range(len(keys))] for k in range(40)]
    for land in lands:
        table = dict(zip(keys, land))
        TABLE.clear()
        TABLE.update(table)
        for order in [None] + list(itertools.permutations('abc')):
            for loops in (1, 2, 3):
                what = 'consecutive of three %r order=%r loops=%d %r' % (grid, order, loops, land)
                rec.state(what)
                rec.step()
                t = tuning('consecutive', 'data', low, x, y, order=None if order is None else list(order), loops=loops)
                try:
                    tl = nimble.train(VTab, x, y, tuning=t, useLog=False, **{n: Tune(list(v)) for n, v in grid.items()})
                except Exception as e:
                    rec.violation('fails|' + what, repr(e))
                    continue
                tup = [tuple(a[n] for n in 'abc') for a in t.allArguments]
                refs = ref_consecutive(grid, list(order or 'abc'), loops, table, 'min')
                if len(tup) != len(set(tup)) or not any(r[0] == frozenset(tup) for r in refs):
                    rec.violation('tried|' + what, '%r; not of %r' % (tup, sorted(map(sorted, {r[0] for r in refs}))))
                if [float(table[c]) for c in tup] != [float(r) for r in t.allResults] or t.bestResult != min(t.allResults):
                    rec.violation('results|' + what, '%r %r' % (tup, t.allResults))
                if tuple(tl.arguments[n] for n in 'abc') != tuple(t.bestArguments[n] for n in 'abc') or \
                        table[tuple(tl.arguments[n] for n in 'abc')] != t.bestResult:
                    rec.violation('learner|' + what, '%r %r' % (tl.arguments, t.bestArguments))


def t_random(rec, sel, tier):
    x, y = make_data()
    grid = {'a': [1, 2, 3], 'b': [11, 12]}
    keys = list(itertools.product(*grid.values()))
    for k in range(12 if tier == 'quick' else 60):
        land = [(k * 7 + 3 * i * i) % 5 for i in range(len(keys))]
        TABLE.clear()
        TABLE.update(zip(keys, land))
        for opt in (('min',) if sel == 'bayesian' else ('min', 'max')):
            for conf in ({'maxIterations': 5}, {'maxIterations': 1}, {'maxIterations': 8, 'threshold': min(land) if opt == 'min' else max(land)}):
                what = '%s %s %r %r' % (sel, opt, conf, land)
                rec.state(what)
                rec.step()
                t = tuning(sel, 'data', low if opt == 'min' else high, x, y, **conf)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        tl = nimble.train(VTab, x, y, tuning=t, a=Tune(grid['a']), b=Tune(grid['b']), useLog=False)
                except Exception as e:
                    rec.violation('fails|' + what, repr(e))
                    continue
                tup = results_ok(rec, what, tl, t, opt, TABLE)
                if not set(tup) <= set(keys):
                    rec.violation('tried|' + what, repr(tup))
                if len(tup) > conf['maxIterations']:
                    rec.violation('more than maxIterations|' + what, repr(tup))
                if 'threshold' in conf and sum(1 for r in t.allResults if not better(opt, conf['threshold'], r)) > 1:
                    rec.violation('went on after the threshold|' + what, repr(t.allResults))


def t_tune(rec, kind):
    if kind == 'add':
        vals = [Fraction(v) for v in ('-2', '-1', '-0.3', '0', '0.1', '0.5', '1', '2', '3')]
        chs = [Fraction(v) for v in ('0.1', '0.25', '0.3', '0.5', '1', '2', '7', '-0.1', '-0.5', '-1', '-2', '0')]
        for s, e, c in itertools.product(vals, vals, chs):
            for defaults in range(3):
                if defaults and (c != 1 or (defaults == 2 and s != 0)):
                    continue
                want = None
                if s == e:
                    want = [s]
                elif c and (e - s) / c > 0:
                    want = [s + k * c for k in range(int((e - s) / c) + 1)]
                conv = lambda v: int(v) if v.denominator == 1 else float(v)
                kw = {'start': conv(s), 'end': conv(e), 'change': conv(c)}
                if defaults:
                    del kw['change']
                if defaults == 2:
                    del kw['start']
                range_case(rec, kw, want)
        for a, b, c in itertools.product((-2, 0, 1, 3), (-3, 0, 2, 5, 6), (-2, -1, 1, 2)):
            r = range(a, b, c)
            what = 'Tune(%r)' % r
            rec.state(what)
            rec.step()
            if len(r) == 0:
                continue
            try:
                got = list(Tune(r))
            except Exception as e:
                rec.violation('fails|' + what, repr(e))
                continue
            if got != list(r):
                rec.violation('values|' + what, repr(got))
    elif kind == 'multiply':
        for s, e, c in itertools.product([-8, -1, 0, 0.5, 1, 3, 10, 100], [-8, -1, 0, 1, 8, 100, 0.001], [2, 0.5, 10, 0.1, 1, 0, -2, 3]):
            S, E, C = Fraction(str(s)), Fraction(str(e)), Fraction(str(c))
            if s == e:
                continue
            want = None
            if s > 0 and e > 0 and c > 0 and c != 1 and (c > 1) == (s < e):
                want, v = [], S
                while v <= E if S < E else v >= E:
                    want.append(v)
                    v *= C
            elif s < 0 and e < 0 and c > 0 and c != 1 and (c < 1) == (s < e):
                continue        # either refused or the range
            range_case(rec, {'start': s, 'end': e, 'change': c, 'changeType': 'multiply'}, want)
        range_case(rec, {'end': 8, 'change': 2, 'changeType': 'multiply'}, None)
        range_case(rec, {'start': 1, 'end': 8, 'change': 2, 'changeType': 'power'}, None)
    else:
        for vals in ([1], [3, 1], ['a', 'b', 'c'], [1, 2, 4, 8], [1, 2, 3], (4, 2, 9), [0, 5, 3], [True, False], [None, 1, 'x'], [0.1, 0.2, 0.3], [0, 0, 0]):
            what = 'Tune(%r)' % (vals,)
            rec.state(what)
            rec.step()
            try:
                t = Tune(vals)
                if list(t) != list(vals) or len(t) != len(vals) or t[0] != vals[0] or t[-1] != vals[-1]:
                    rec.violation('values|' + what, repr(list(t)))
            except Exception as e:
                rec.violation('fails|' + what, repr(e))
                continue
            try:
                t[0] = 9
                rec.violation('mutable|' + what)
            except nimble.exceptions.NimbleException:
                pass
        range_case(rec, {}, None)
        range_case(rec, {'values': 5}, None)


def range_case(rec, kw, want):
    import signal
    what = 'Tune(%s)' % ', '.join('%s=%r' % i for i in sorted(kw.items()))
    rec.state(what)
    rec.step()

    class Endless(Exception):
        pass

    def stop(*a):
        raise Endless()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, 0.5)
    try:
        got = list(Tune(**kw))
    except nimble.exceptions.NimbleException:
        got = None
        rec.rejected += 1
    except Endless:
        got = 'endless'
    except Exception as e:
        got = repr(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if want is None:
        if got is not None:
            rec.violation('not refused|' + what, repr(got)[:200])
    elif not isinstance(got, list) or len(got) != len(want) or any(not math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9) for a, b in zip(got, want)):
        rec.violation('values|' + what, '%r not %r' % (repr(got)[:200], [float(v) for v in want]))


def t_bad(rec, tier):
    x, y = make_data()
    cases = [('selection', lambda: Tuning(selection='nosuch')), ('validation', lambda: Tuning(validation='nosuch')),
             ('validation int', lambda: Tuning(validation=3)),
             ('iterative with cross validation', lambda: Tuning(selection='iterative')),
             ('bayesian with proportion', lambda: Tuning(selection='bayesian', validation=0.5)),
             ('iterative without limits', lambda: Tuning(selection='iterative', validation='data', maxIterations=None, validateX=x, validateY=y)),
             ('loops 0', lambda: nimble.train(VTab, x, y, tuning=Tuning(performanceFunction=low, loops=0, folds=2), a=Tune([1, 2]), useLog=False)),
             ('no tuning', lambda: nimble.train(VTab, x, y, a=Tune([1, 2]), useLog=False)),
             ('order without an argument', lambda: nimble.train(VTab, x, y, tuning=Tuning(performanceFunction=low, folds=2, order=['b']),
                                                               a=Tune([1, 2]), b=Tune([11, 12]), useLog=False)),
             ('bayesian of max', lambda: nimble.train(VTab, x, y, tuning=Tuning('bayesian', 'data', high, validateX=x, validateY=y),
                                                      a=Tune([1, 2]), useLog=False))]
    TABLE.clear()
    TABLE.update({(a, b): 1 for a in (0, 1, 2) for b in (0, 11, 12)})
    for what, f in cases:
        rec.state(what)
        rec.step()
        try:
            f()
            rec.violation('not refused|' + what)
        except nimble.exceptions.NimbleException:
            rec.rejected += 1
        except Exception as e:
            rec.violation('fails|' + what, repr(e))
