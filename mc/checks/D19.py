"""D19: performance metrics, normalizations and linear algebra compute their definitions."""
import itertools
import math
from fractions import Fraction as F
import numpy as np
import nimble
from nimble import calculate
from mc import stat
from mc.model import Tab, approx, cell
from mc.obs import TYPES, build, observe
from mc.variants import make

PROPERTY = 'D19'
LEVEL = 'model_checking'
RULE = ('every pair of known and predicted vectors up to the stated length over the alphabets, in every pair of types and as views: every performance metric, the confusion matrix under every way of labelling, '
        'the binary metrics, the confidence intervals; every vector and second vector under every normalization; every matrix of the stated shapes and entries: inverse, pseudo-inverse, linear systems, '
        'least squares and residuals; the oracle is the definition in exact arithmetic')
ASSUMPTIONS = ['numbers compared to 8 significant digits (6 for iterative solvers)', 'a quotient with denominator 0 gives no finite value: NaN, infinity or an error are accepted',
               'percentiles of fewer than two known values are undefined',
               'a singular matrix is refused or, where rounding of the factorization hides that it is singular, gives an entry that is not finite or exceeds 1e9']
NAN = stat.NAN
VEC = {'bin': [0, 1], 'three': [0, 1, 2], 'real': [-1, 0.5, 2], 'text': ['a', 'b', 'c d']}


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for k, p in itertools.product(TYPES, TYPES):
        for a in VEC:
            if a == 'text' and 'Sparse' in (k, p):
                continue
            for n in range(1, (6 if deep else 5) if a == 'bin' and k == p else 4 if k == p or deep else 4 if a == 'bin' else 3):
                out.append(['metric', k, p, a, n])
        out.append(['refuse', k, p])
    for r in TYPES:
        out += [['normalize', r, n] for n in range(1, 6 if deep else 4)]
        out += [['table', r, i] for i in range(3)]
        out += [['inverse', r, n] for n in (1, 2, 3)]
        out += [['rect', r, s] for s in ([1, 2], [2, 1], [3, 2], [2, 3], [1, 3], [3, 1])]
        out += [['solve', r, b, n] for b in TYPES for n in (1, 2)]
        out += [['lstsq', r, b] for b in TYPES]
        out += [['residuals', r, b] for b in TYPES]
        out += [['multi', r, b] for b in TYPES]
    out.append(['detect', deep])
    return out


def run_task(task, rec):
    with np.errstate(all='ignore'):
        globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def result(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:150])


def failed(r):
    return isinstance(r, tuple) and len(r) == 3 and r[0] == 'raised'


def num(x, digits=8):
    x = float(x)
    if x != x or math.isinf(x):
        return 'undefined'
    return float('%.*g' % (digits, x)) if abs(x) > 1e-9 else 0.0


def same(rec, key, got, want, digits=8):
    rec.step()
    if want is None:          # a denominator of 0
        if failed(got) or num(got) == 'undefined':
            rec.rejected += 1
            return
    elif not failed(got) and close(got, want, digits):
        rec.outcome(num(want, 4))
        return
    rec.violation(key, 'got %r want %r' % (got, want if want is None else float(want)))


def close(a, b, digits=8):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 10.0 ** -digits * max(1, abs(a), abs(b))


def grid(rec, key, got, want, digits=8):
    """a nimble object or a tuple of rows"""
    rec.step()
    if failed(got):
        rec.violation(key, got)
        return
    s, c, pn, fn = observe(got, cell)
    ok = len(c) == len(want) and all(len(x) == len(y) and all((u == 'NA') == (v != v) and (v != v or close(u, v, digits)) for u, v in zip(x, y)) for x, y in zip(c, want))
    if not ok:
        rec.violation(key, 'got %r want %r' % (c, [[float(v) for v in r] for r in want]))
    rec.outcome(len(want))


# ---------------------------------------------------------------- metrics

def div(a, b):
    return None if b == 0 else F(a) / F(b)


def metrics(k, p):
    n = len(k)
    out = {'fractionIncorrect': F(sum(1 for a, b in zip(k, p) if a != b), n), 'fractionCorrect': F(sum(1 for a, b in zip(k, p) if a == b), n)}
    if any(isinstance(v, str) for v in k + p):
        return out
    k, p = [F(v) for v in k], [F(v) for v in p]
    se = sum((a - b) ** 2 for a, b in zip(k, p))
    out['rootMeanSquareError'] = out['meanFeaturewiseRootMeanSquareError'] = math.sqrt(se / n)
    out['meanAbsoluteError'] = sum(abs(a - b) for a, b in zip(k, p)) / n
    out['varianceFractionRemaining'] = div(se / n, stat.pvar(k))
    out['rSquared'] = None if stat.pvar(k) == 0 else 1 - se / n / stat.pvar(k)
    kk, pp = sum(a * a for a in k), sum(b * b for b in p)
    out['cosineSimilarity'] = None if kk * pp == 0 else float(sum(a * b for a, b in zip(k, p))) / math.sqrt(kk * pp)
    return out


def binary(k, p):
    tp = sum(1 for a, b in zip(k, p) if a and b)
    tn = sum(1 for a, b in zip(k, p) if not a and not b)
    fp = sum(1 for a, b in zip(k, p) if not a and b)
    fn = sum(1 for a, b in zip(k, p) if a and not b)
    rec_, pre, spe = div(tp, tp + fn), div(tp, tp + fp), div(tn, tn + fp)
    return {'truePositive': tp, 'trueNegative': tn, 'falsePositive': fp, 'falseNegative': fn, 'recall': rec_, 'precision': pre, 'specificity': spe,
            'balancedAccuracy': None if rec_ is None or spe is None else (rec_ + spe) / 2, 'f1Score': None if not rec_ or not pre else 2 * pre * rec_ / (pre + rec_)}


def interval(errs, conf, pop=False, root=False):
    from scipy.stats import t
    n = len(errs)
    if n < 2:
        return None
    sd = math.sqrt(stat.pvar(errs) if pop else stat.svar(errs))
    h = t.ppf(1 - (1 - conf) / 2, n - 1) * sd / math.sqrt(n)
    lo, hi = float(stat.mean(errs)) - h, float(stat.mean(errs)) + h
    return tuple((math.sqrt(v) if v >= 0 else NAN) if root else v for v in (lo, hi))


def column(vals, rtype, form='fresh'):
    return make(Tab([[v] for v in vals]), rtype, form)


def t_metric(rec, kt, pt, a, n):
    for k in itertools.product(VEC[a], repeat=n):
        for p in itertools.product(VEC[a], repeat=n):
            for form in ('fresh', 'fview') if n == 2 else ('fresh',):
                ko, po = column(k, kt, form), column(p, pt, 'fresh' if n == 1 else form)
                what = '%s %s %s %r %r' % (kt, pt, form, k, p)
                rec.state(what)
                for name, want in metrics(list(k), list(p)).items():
                    same(rec, '%s|%s' % (name, what), result(getattr(calculate, name), ko, po), want)
                if a == 'bin':
                    for name, want in binary(k, p).items():
                        same(rec, '%s|%s' % (name, what), result(getattr(calculate, name), ko, po), want)
                confusion(rec, ko, po, k, p, a, what)
                if n > 1:
                    intervals(rec, ko, po, k, p, a, what)
                if observe(ko, cell)[1] != tuple((cell(v),) for v in k) or observe(po, cell)[1] != tuple((cell(v),) for v in p):
                    rec.violation('changed|' + what)


def intervals(rec, ko, po, k, p, a, what):
    for conf in (0.95, 0.5):
        todo = [('fractionIncorrectConfidenceInterval', interval([F(int(x != y)) for x, y in zip(k, p)], conf, pop=True))]
        if a != 'text':
            e = [F(x) - F(y) for x, y in zip(k, p)]
            todo += [('rootMeanSquareErrorConfidenceInterval', interval([x * x for x in e], conf, root=True)), ('meanAbsoluteErrorConfidenceInterval', interval([abs(x) for x in e], conf))]
        for name, want in todo:
            for kw in ({'confidence': conf}, {}) if conf == 0.95 else ({'confidence': conf},):
                got = result(getattr(calculate, name), ko, po, **kw)
                rec.step()
                if failed(got) or len(got) != 2 or not all(close(x, y, 7) for x, y in zip(got, want)):
                    rec.violation('%s|%s %s' % (name, conf, what), 'got %r want %r' % (got, want))


def confusion(rec, ko, po, k, p, a, what):
    labs = sorted(set(k))
    n = F(len(k))
    allv = VEC[a]
    forms = [(None, labs, labs)]
    forms.append(({v: 'L%s' % i for i, v in enumerate(allv)}, sorted(allv), ['L%s' % allv.index(v) for v in sorted(allv)]))
    if a in ('bin', 'three'):
        forms.append((['l%d' % i for i in allv], allv, ['l%d' % i for i in allv]))
        forms.append((['l%d' % i for i in allv] + ['more'], allv + [len(allv)], ['l%d' % i for i in allv] + ['more']))
        forms.append((['only'], [0], ['only']))
        forms.append(({1: 'one'}, [1], ['one']))
    for labels, order, shown in forms:
        for frac in (False, True) if len(k) < 3 or labels is None else (len(labels) > 1,):
            got = result(calculate.confusionMatrix, ko, po, labels, frac)
            rec.step()
            key = 'confusionMatrix|%r %s %s' % (labels, frac, what)
            if not set(k) | set(p) <= set(order):
                rec.rejected += 1
                if not failed(got):
                    rec.violation(key, 'a label which is not known is not refused: %r' % (observe(got),))
                continue
            if failed(got):
                rec.violation(key, got)
                continue
            s, c, pn, fn = observe(got, approx)
            want = tuple(tuple(approx(float(sum(1 for x, y in zip(k, p) if x == b and y == q) / (n if frac else 1))) for b in order) for q in order)
            text = [str(int(v)) if not isinstance(v, str) and v == int(v) else str(v) for v in shown]
            if c != want or list(pn) != ['predicted_' + t for t in text] or list(fn) != ['known_' + t for t in text]:
                rec.violation(key, 'got %r %r %r want %r %r' % (c, pn, fn, want, text))


def t_refuse(rec, kt, pt):
    """shapes and values the metrics do not accept"""
    good = column([0, 1, 1], kt)
    bad = [column([0, 1], pt), build(Tab([[0, 1], [1, 1], [0, 0]]), pt), column([0, NAN, 1], pt), make(Tab([[0, 1, 1]]), pt, 'fresh'), [0, 1, 1], None]
    for name in list(metrics([0, 1], [0, 1])) + list(binary((0, 1), (0, 1))):
        f = getattr(calculate, name)
        for i, b in enumerate(bad):
            for args in ((good, b), (b, good)) if i != 1 else ((good, b),):
                r = result(f, *args)
                rec.rejected += 1
                rec.step()
                if not failed(r):
                    rec.violation('accepted|%s %d %s %s' % (name, i, kt, pt), r)
        if name in binary((0, 1), (0, 1)):
            for v in ([0, 1, 2], [0, 1, -1], [0, 1, 0.5]):
                for args in ((good, column(v, pt)), (column(v, kt), good)):
                    r = result(f, *args)
                    rec.rejected += 1
                    if not failed(r):
                        rec.violation('not binary|%s %r %s %s' % (name, v, kt, pt), r)
    rec.state((kt, pt))


def t_multi(rec, kt, pt):
    """metrics of more than one feature"""
    for k in itertools.product([0, 2, -1], repeat=4):
        for p in ((0, 0, 0, 0), (1, 2, 3, 4), k, (2, 0, -1, 0.5)):
            ko, po = build(Tab([k[:2], k[2:]]), kt), build(Tab([p[:2], p[2:]]), pt)
            want = sum(math.sqrt(sum((F(k[i]) - F(p[i])) ** 2 for i in (j, j + 2)) / 2) for j in (0, 1)) / 2
            same(rec, 'meanFeaturewiseRootMeanSquareError|%s %s %r %r' % (kt, pt, k, p), result(calculate.meanFeaturewiseRootMeanSquareError, ko, po), want)
            rec.state((kt, pt, k, p))
            for name in ('rootMeanSquareError', 'meanAbsoluteError', 'fractionIncorrect', 'recall', 'cosineSimilarity'):
                if not failed(result(getattr(calculate, name), ko, po)):
                    rec.violation('accepts two features|%s %s %s' % (name, kt, pt))
                rec.rejected += 1


def t_detect(rec, deep):
    """which values are better is found without being told, whatever the random state"""
    best = {'fractionIncorrect': 'min', 'fractionCorrect': 'max', 'rootMeanSquareError': 'min', 'meanAbsoluteError': 'min', 'truePositive': 'max', 'trueNegative': 'max',
            'falsePositive': 'min', 'falseNegative': 'min', 'recall': 'max', 'precision': 'max', 'specificity': 'max', 'balancedAccuracy': 'max', 'f1Score': 'max', 'rSquared': 'max',
            'varianceFractionRemaining': 'min', 'cosineSimilarity': 'max', 'meanFeaturewiseRootMeanSquareError': 'min'}

    def plain(sign, kind):
        def f(known, pred):
            if kind == 'labels':
                return sign * sum(1 for a, b in zip(known, pred) if a == b)
            if kind == 'rate':
                return sign * sum(abs(a - b) for a, b in zip(known, pred)) / len(known.points)
            return sign * sum(p[int(k)] - p[1 - int(k)] for k, p in zip(known, pred.points))
        return f
    for seed in range(200 if deep else 40):
        for name, want in best.items():
            nimble.random.setSeed(seed, useLog=False)
            got = result(calculate.detectBestResult, getattr(calculate, name))
            rec.step()
            if got != want:
                rec.violation('detectBestResult|%s' % name, got)
        for sign, kind in itertools.product((1, -1), ('labels', 'rate')):
            nimble.random.setSeed(seed, useLog=False)
            want = {('labels', 1): 'max', ('labels', -1): 'min', ('rate', 1): 'min', ('rate', -1): 'max'}[kind, sign]
            f = plain(sign, kind)
            got = result(calculate.detectBestResult, lambda k, p: f(k, p) if len(p.features) == 1 else 1 / 0)
            if got != want:
                rec.violation('detectBestResult|own %s %d seed %d' % (kind, sign, seed), got)
            f.optimal = 'max' if want == 'min' else 'min'
            if result(calculate.detectBestResult, f) != f.optimal:
                rec.violation('detectBestResult|declared %s %d' % (kind, sign))
        for bad in (lambda k, p: 1, lambda k, p: NAN, lambda k, p: 1 / 0):
            nimble.random.setSeed(seed, useLog=False)
            if not failed(result(calculate.detectBestResult, bad)):
                rec.violation('detectBestResult|accepts a function that measures nothing')
            rec.rejected += 1
        rec.state(seed)
    for name, want in best.items():
        f = getattr(calculate, name)
        if f.optimal != want:
            rec.violation('optimal|' + name, f.optimal)


# ---------------------------------------------------------------- normalization

def norm_mean(a):
    m = stat.mean(a)
    return lambda v: v - m


def norm_z(a):
    m, s = stat.mean(a), math.sqrt(stat.pvar(a))
    return lambda v: v - m if s == 0 else float(v - m) / s


def norm_range(a):
    lo, hi = min(a), max(a)
    return lambda v: (v - lo) / (hi - lo) if hi != lo else v - lo


def norm_pct(a):
    if len(a) < 2:
        return None
    s = sorted(a)

    def at(x):
        ix = [i for i, y in enumerate(s) if y == x]
        return F(sum(ix), len(ix)) / (len(s) - 1)

    def first(v):
        return at(v)

    def second(v):
        if s[0] == s[-1] == v:
            return F(1, 2)
        if v <= s[0]:
            return F(0)
        if v >= s[-1]:
            return F(1)
        if v in s:
            return at(v)
        i = max(j for j, y in enumerate(s) if y < v)
        x, y = s[i], s[i + 1]
        return at(x) + (at(y) - at(x)) * (v - x) / (y - x)
    first.second = second
    return first


NORMS = {'meanNormalize': norm_mean, 'meanStandardDeviationNormalize': norm_z, 'range0to1Normalize': norm_range, 'percentileNormalize': norm_pct}


def normalized(name, vals, second=None):
    """what becomes of vals, and of the second vector; None if it is undefined"""
    x = stat.exact(vals)
    if not x:
        return None
    f = NORMS[name](x)
    if f is None:
        return None
    a = [NAN if v != v else f(F(v)) for v in vals]
    b = None if second is None else [NAN if v != v else getattr(f, 'second', f)(F(v)) for v in second]
    return a, b


def t_normalize(rec, rtype, n):
    seconds = [(3,), (-2, NAN, 0.5), (1, 0, 7, -9, 0.25)]
    for vals in itertools.product([0, 1, -2, 3, NAN] if n < 4 else [0, 1, 3, NAN], repeat=n):
        for orient in ('ft', 'pt', 'fview', 'pview'):
            if n == 1 and orient in ('pt', 'pview'):
                continue
            tab = (lambda v: Tab([[x] for x in v])) if orient[0] == 'f' else (lambda v: Tab([list(v)]))
            form = orient if 'view' in orient else 'fresh'
            for name in NORMS:
                for sec in [None] + seconds[:2 if n > 3 else 3]:
                    if sec is not None and len(sec) == 1 and orient[0] == 'p':
                        continue
                    want = normalized(name, vals, sec)
                    if want is None:
                        continue
                    o = make(tab(vals), rtype, form)
                    s = None if sec is None else make(tab(sec), rtype, form)
                    key = '%s|%s %s %r %r' % (name, rtype, orient, vals, sec)
                    got = result(getattr(calculate, name), o) if sec is None else result(getattr(calculate, name), o, s)
                    if sec is None:
                        grid(rec, key, got, tab(want[0]).rows)
                    elif failed(got):
                        rec.violation(key, got)
                    else:
                        grid(rec, key, got[0], tab(want[0]).rows)
                        grid(rec, key + ' second', got[1], tab(want[1]).rows)
                    if observe(o, cell)[1] != tab(vals).data(cell) or s is not None and observe(s, cell)[1] != tab(sec).data(cell):
                        rec.violation('changed|' + key)
        rec.state((rtype, vals))


NTABS = [Tab([[1, 5, 0], [2, 0, 0], [4, 3, 1], [4, 1, 0]], ['a', 'b', 'c', 'd'], ['x', 'y', 'xy']),
         Tab([[NAN, 1.5], [2, NAN], [3, 1], [5, 2]], None, ['x', 'y']), Tab([[0, 1], [0, 3], [0, 2]])]
STABS = [Tab([[3, 1, 1], [9, 0, 0]], ['e', 'f'], ['x', 'y', 'xy']), Tab([[4, NAN], [1, 1.25], [9, 9]], None, None), Tab([[1, 1], [0, 5]], None, ['p', 'q'])]


def t_table(rec, rtype, i):
    """features.normalize"""
    t = NTABS[i]
    own = {'own': lambda v: [x * 2 for x in v]}

    def pair(f, g):
        return f * 2, g * 3
    for name in list(NORMS) + ['own']:
        fn = getattr(calculate, name, own.get(name))
        for other in (None,) + tuple(TYPES):
            f = pair if name == 'own' and other else fn
            sel = [None] + [[j] for j in range(t.nf)] + [list(range(t.nf))[::-1]] + list(range(t.nf)) + [-1]
            if any(t.fn):
                sel += ['x', ['y'], ['x', t.fn[-1]], [0, 'y']]
            sel += ['nope', 7, [0, 9]]
            for ids in sel:
                js = [t.fn.index(x) if isinstance(x, str) and x in t.fn else x for x in (range(t.nf) if ids is None else ids if isinstance(ids, list) else [ids])]
                o = build(t, rtype)
                s = None if other is None else build(STABS[i], other)
                key = 'features.normalize(%s)|%s %s %d %r' % (name, rtype, other, i, ids)
                got = result(o.features.normalize, f, s, ids, useLog=False)
                rec.step()
                if any(isinstance(j, str) or not -t.nf <= j < t.nf for j in js):
                    rec.rejected += 1
                    if not failed(got) or observe(o, cell) != observe(build(t, rtype), cell) or s is not None and observe(s, cell) != observe(build(STABS[i], other), cell):
                        rec.violation('accepted|' + key, got)
                    continue
                if failed(got) or got is not None:
                    rec.violation(key, got)
                    continue
                js = [j % t.nf for j in js]
                want, wants = t.T, STABS[i].T
                for j in js:
                    if name == 'own':
                        r = [v * 2 for v in want.rows[j]], [v * 3 for v in wants.rows[j]]
                    else:
                        r = normalized(name, want.rows[j], wants.rows[j])
                    want.rows[j], wants.rows[j] = r
                grid(rec, key, o, want.T.rows)
                if (tuple(o.points.getNames()), tuple(o.features.getNames())) != (tuple(t.pn), tuple(t.fn)):
                    rec.violation('names|' + key)
                if s is not None:
                    grid(rec, key + ' second', s, wants.T.rows)
                    if (tuple(s.points.getNames()), tuple(s.features.getNames())) != (tuple(STABS[i].pn), tuple(STABS[i].fn)):
                        rec.violation('names of the second|' + key)
                rec.state(key)
    o = build(t, rtype)
    for bad in (build(Tab([[1]]), rtype), build(Tab([[1] * t.nf], None, ['other%d' % j for j in range(t.nf)]), rtype) if any(t.fn) else 5, [[1] * t.nf]):
        r = result(o.features.normalize, calculate.meanNormalize, bad, useLog=False)
        rec.rejected += 1
        if not failed(r) or observe(o, cell) != observe(build(t, rtype), cell):
            rec.violation('normalize accepts|%s %d' % (rtype, i), r)


# ---------------------------------------------------------------- linear algebra

def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def inv(a):
    """exact inverse, or None"""
    n = len(a)
    m = [[F(v) for v in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c] != 0), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        m[c] = [v / m[c][c] for v in m[c]]
        for r in range(n):
            if r != c:
                m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


def pinv(a):
    """exact pseudo-inverse of a matrix of full row or column rank, or None"""
    i = inv(mul(tr(a), a))
    if i is not None:
        return mul(i, tr(a))
    i = inv(mul(a, tr(a)))
    if i is not None:
        return mul(tr(a), i)
    return None


def t_inverse(rec, rtype, n):
    alpha = [0, 1, -2, 0.5, 4] if n < 3 else [0, 1, -2]
    mats = itertools.product(alpha, repeat=n * n) if n < 3 else (m for m in itertools.product(alpha, repeat=9) if m[0] and m[1] != 1 and m[5] == 1)
    for vals in mats:
        rows = [list(vals[i * n:(i + 1) * n]) for i in range(n)]
        for names in (None, ['a', 'b', 'c'][:n]) if n < 3 else (None,):
            o = build(Tab(rows, names, names), rtype)
            key = '%s %r %r' % (rtype, rows, names)
            rec.state(key)
            want = inv(rows)
            for fn, f in (('inverse', lambda: calculate.inverse(o)), ('object.inverse', lambda: o.inverse())):
                got = result(f)
                if want is None:
                    rec.rejected += 1
                    rec.step()
                    if not failed(got) and all(v == v and abs(v) < 1e9 for v in got.copy('numpyarray').flat) or failed(got) and 'InvalidArgument' not in got[1]:
                        rec.violation('singular|%s %s' % (fn, key), got if failed(got) else observe(got))
                else:
                    grid(rec, '%s|%s' % (fn, key), got, want)
            w = pinv([[F(v) for v in r] for r in rows])
            if w is not None:
                grid(rec, 'pseudoInverse|' + key, result(calculate.pseudoInverse, o), w, 7)
                grid(rec, 'inverse(pseudo)|' + key, result(o.inverse, True), w, 7)
            if observe(o, cell)[1] != Tab(rows).data(cell):
                rec.violation('changed|' + key)


def t_rect(rec, rtype, shape):
    p, q = shape
    for vals in itertools.product([0, 1, -2] if p * q < 6 else [0, 1], repeat=p * q):
        rows = [[F(v) for v in vals[i * q:(i + 1) * q]] for i in range(p)]
        o = build(Tab([[int(v) for v in r] for r in rows]), rtype)
        rec.state((rtype, vals))
        w = pinv(rows)
        if w is not None:
            grid(rec, 'pseudoInverse|%s %r' % (rtype, vals), result(calculate.pseudoInverse, o), w, 7)
        if not failed(result(calculate.inverse, o)):
            rec.violation('not square|%s %r' % (rtype, shape))
        rec.rejected += 1


def t_solve(rec, at, bt, n):
    alpha = [0, 1, -2, 0.5]
    for vals in itertools.product(alpha, repeat=n * n):
        rows = [[F(v) for v in vals[i * n:(i + 1) * n]] for i in range(n)]
        w = inv(rows)
        for b in itertools.product([0, 1, -3], repeat=n):
            for orient in ('row', 'column'):
                a = build(Tab([list(vals[i * n:(i + 1) * n]) for i in range(n)], None, ['x', 'y'][:n]), at)
                bo = build(Tab([list(b)] if orient == 'row' else [[v] for v in b]), bt)
                key = '%s %s %r %r %s' % (at, bt, vals, b, orient)
                for fn, f in (('solve', lambda: calculate.solve(a, bo)), ('solveLinearSystem', lambda: a.solveLinearSystem(bo))):
                    got = result(f)
                    if w is None:
                        rec.step()
                        rec.rejected += 1
                        if not failed(got) and all(v == v and abs(v) < 1e9 for v in got.copy('numpyarray', outputAs1D=True)):
                            rec.violation('singular|%s %s' % (fn, key), observe(got))
                        continue
                    x = tr(mul(w, [[F(v)] for v in b]))
                    grid(rec, '%s|%s' % (fn, key), got, x)
                if w is not None:
                    grid(rec, 'least squares|' + key, result(a.solveLinearSystem, bo, 'least squares'), tr(mul(w, [[F(v)] for v in b])), 5)
        rec.state((at, bt, vals))


def t_lstsq(rec, at, bt):
    for p, q in ((3, 1), (3, 2), (2, 1), (4, 2)):
        for vals in itertools.product([0, 1, 2] if p * q < 6 else [0, 1], repeat=p * q):
            rows = [[F(v) for v in vals[i * q:(i + 1) * q]] for i in range(p)]
            w = inv(mul(tr(rows), rows))
            if w is None:
                continue
            for b in ((1,) * p, tuple(range(p)), (3, -1, 0, 2)[:p]):
                a = build(Tab([list(vals[i * q:(i + 1) * q]) for i in range(p)]), at)
                for orient in ('row', 'column'):
                    bo = build(Tab([list(b)] if orient == 'row' else [[v] for v in b]), bt)
                    x = tr(mul(w, mul(tr(rows), [[F(v)] for v in b])))
                    grid(rec, 'leastSquaresSolution|%s %s %r %r %s' % (at, bt, vals, b, orient), result(calculate.leastSquaresSolution, a, bo), x, 5)
            rec.state((at, bt, vals))
    a, sq = build(Tab([[1, 2], [3, 4], [5, 6]]), at), build(Tab([[1, 2], [3, 4]]), at)
    for f, x, b in ((calculate.solve, a, [[1], [2], [3]]), (calculate.solve, sq, [[1], [2], [3]]), (calculate.solve, sq, [[1, 2], [3, 4]]), (calculate.leastSquaresSolution, a, [[1, 2]]),
                    (calculate.leastSquaresSolution, a, [[1, 2], [3, 4]])):
        rec.rejected += 1
        if not failed(result(f, x, build(Tab(b), bt))):
            rec.violation('accepted|%s %s %s %r' % (f.__name__, at, bt, b))


def t_residuals(rec, at, bt):
    for n, q in ((3, 1), (4, 2)):
        for vals in itertools.product([0, 1, 3] if q == 1 else [0, 1], repeat=n * q):
            rows = [[F(v) for v in vals[i * q:(i + 1) * q]] + [F(1)] for i in range(n)]
            w = inv(mul(tr(rows), rows))
            if w is None:
                continue
            for ys in ([[1], [2], [0], [5]], [[0, 1], [2, -1], [3, 3], [0, 0]]):
                y = ys[:n]
                yo, c = build(Tab(y), at), build(Tab([list(vals[i * q:(i + 1) * q]) for i in range(n)]), bt)
                fit = mul(rows, mul(w, mul(tr(rows), [[F(v) for v in r] for r in y])))
                grid(rec, 'residuals|%s %s %r %r' % (at, bt, vals, y), result(calculate.residuals, yo, c), [[F(v) - u for v, u in zip(r, f)] for r, f in zip(y, fit)], 7)
                if observe(c, cell)[1] != tuple(tuple(cell(v) for v in vals[i * q:(i + 1) * q]) for i in range(n)):
                    rec.violation('residuals changes|%s %s' % (at, bt))
            rec.state((at, bt, vals))
    y, c = build(Tab([[1], [2]]), at), build(Tab([[1], [2], [3]]), bt)
    rec.rejected += 1
    if not failed(result(calculate.residuals, y, c)):
        rec.violation('residuals accepts|%s %s' % (at, bt))
