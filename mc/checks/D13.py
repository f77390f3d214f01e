"""D13: every statistic is the value its definition gives, whichever way it is asked for."""
import itertools
import nimble
from nimble import calculate
from mc import stat
from mc.model import Tab, approx, cell
from mc.obs import TYPES, build, names, observe
from mc.variants import MUTABLE, VIEWS, applicable, make

PROPERTY = 'D13'
LEVEL = 'model_checking'
RULE = ('every vector up to the stated length over the alphabets, as a point and as a feature of every type, variant and view, and every table of the stated shapes: every statistic, by nimble.calculate, '
        'by the methods of points, features and the object, by statistics(name) under every accepted spelling, by groupByFeature and by report, every similarity; the oracle is the definition in exact arithmetic')
ASSUMPTIONS = ['numbers compared to 8 significant digits', 'values of a mode are all numbers or all strings', 'groups are keyed by finite numbers or strings']

NAN = stat.NAN
ALPHA = {'num': [0, 1, -2, 0.5, NAN], 'int': [0, 3, -1, 2], 'text': ['a', 'b', None], 'mix': ['a', 1, NAN, 0], 'bool': [True, False], 'big': [10 ** 6, 10 ** 6 + 1, 10 ** 6 + 3]}
CALC = {
    'maximum': calculate.maximum, 'minimum': calculate.minimum, 'mean': calculate.mean, 'median': calculate.median, 'variance': calculate.variance,
    'populationVariance': lambda v: calculate.variance(v, False), 'standardDeviation': calculate.standardDeviation,
    'populationStandardDeviation': lambda v: calculate.standardDeviation(v, sample=False), 'medianAbsoluteDeviation': calculate.medianAbsoluteDeviation, 'mode': calculate.mode,
    'quartiles': calculate.quartiles, 'sum': calculate.sum, 'count': calculate.count, 'uniqueCount': calculate.uniqueCount, 'proportionMissing': calculate.proportionMissing,
    'proportionZero': calculate.proportionZero,
}
METHOD = {'maximum': 'max', 'minimum': 'min', 'mean': 'mean', 'median': 'median', 'variance': 'variance', 'standardDeviation': 'standardDeviation',
          'populationStandardDeviation': 'populationStandardDeviation', 'medianAbsoluteDeviation': 'medianAbsoluteDeviation', 'mode': 'mode', 'quartiles': 'quartiles', 'sum': 'sum',
          'uniqueCount': 'uniqueCount', 'proportionMissing': 'proportionMissing', 'proportionZero': 'proportionZero'}
BASE = {k: v for k, v in METHOD.items() if k not in ('standardDeviation', 'populationStandardDeviation')}
SPELL = {'maximum': ['max'], 'minimum': ['min'], 'mean': ['mean', 'MEAN'], 'median': ['median'], 'uniqueCount': ['unique count', 'uniqueCount'],
         'proportionMissing': ['proportion missing', 'proportionMissing'], 'proportionZero': ['proportion zero', 'ProportionZero'],
         'standardDeviation': ['std', 'standard deviation', 'sample std', 'sample standard deviation', 'standardDeviation'],
         'populationStandardDeviation': ['population std', 'population standard deviation'], 'count': ['count'], 'mode': ['mode'], 'sum': ['sum'], 'variance': ['variance'],
         'medianAbsoluteDeviation': ['median absolute deviation'], 'quartiles': ['quartiles']}


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for rtype in TYPES:
        for a in ALPHA:
            if rtype == 'Sparse' and a in ('text', 'mix'):
                continue
            for n in range(1, (6 if len(ALPHA[a]) > 3 else 7) if deep else (5 if len(ALPHA[a]) > 3 else 6)):
                out.append(['vectors', rtype, a, n])
        for t in range(len(TABLES)):
            if rtype == 'Sparse' and strings(TABLES[t]):
                continue
            out += [['table', rtype, t, v] for v in MUTABLE + VIEWS if applicable(TABLES[t], rtype, v)]
            out.append(['group', rtype, t])
        for shape in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2)] + [(2, 3)] * deep:
            out.append(['small', rtype, shape])
    return out


def strings(t):
    return any(isinstance(v, str) or v is None for r in t.rows for v in r)


TABLES = [
    Tab([[1, 2, 0], [3, NAN, 0], [0, 5, -1], [3, 2, 4]], ['a', 'b', 'c', 'd'], ['x', 'y', 'z']),
    Tab([[1, 0.5, 0], [1, NAN, 0], [2, 5, NAN], [2, 2, 4]], None, ['k', None, 'v']),
    Tab([[1, 2], [3, 4]]),
    Tab([[0, 0], [0, 0], [0, 0]], None, ['p', 'q']),
    Tab([[NAN, 1], [NAN, 2]], ['r', 's'], ['n', 'm']),
    Tab([[2, 7, 1, 8]], ['only'], None),
    Tab([[2], [7], [7], [0]], None, ['only']),
    Tab([['u', 1], ['w', 2], ['u', NAN], ['w', 3]], None, ['key', 'val']),
    Tab([['u', 'l'], ['w', 'l'], ['u', None]], ['i', 'j', 'k'], ['s', 't']),
    Tab([[1, 1, 3], [2, 1, 4], [1, 2, 5], [1, 1, 6], [2, 1, 8]], None, ['g', 'h', 'v']),
    Tab([[5]]),
]


def run_task(task, rec):
    globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except stat.NoResult:
        return 'refused'


def result(f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:150])
    return r


def form(x):
    if isinstance(x, tuple) and not (x and x[0] == 'raised'):
        return tuple(form(v) for v in x)
    if isinstance(x, str):
        return cell(x)
    if isinstance(x, tuple):
        return x
    return approx(x) if x is None or isinstance(x, str) else approx(float(x))


def same(rec, key, got, want):
    rec.step()
    if want == 'refused':
        rec.rejected += 1
        if isinstance(got, tuple) and got and got[0] == 'raised' and 'InvalidArgument' in got[1]:
            return
        rec.violation(key, 'got %r, nothing to compute it from' % (got,))
        return
    rec.outcome(form(want))
    if isinstance(got, tuple) and got and got[0] == 'raised' or form(got) != form(want):
        rec.violation(key, 'got %r want %r' % (got, want))


def modeok(vals):
    k = stat.known(vals)
    return all(isinstance(v, str) for v in k) or not any(isinstance(v, str) for v in k)


def t_vectors(rec, rtype, a, n):
    for vals in itertools.product(ALPHA[a], repeat=n):
        for orient in ('ft', 'pt', 'fview', 'pview', 'zeroed') if n < 4 else ('ft', 'pt'):
            if n == 1 and orient != 'ft':
                continue
            if orient in ('ft', 'fview', 'zeroed'):
                t = Tab([[v] for v in vals])
            else:
                t = Tab([list(vals)])
            if orient not in ('ft', 'pt') and a == 'bool' or orient == 'zeroed' and a in ('text', 'mix'):
                continue
            o = make(t, rtype, orient if orient in ('fview', 'pview', 'zeroed') else 'fresh')
            rec.state((rtype, orient, t.data(cell)))
            for name, f in CALC.items():
                if name == 'mode' and not modeok(vals):
                    continue
                same(rec, '%s|%s %s %s %r' % (name, a, rtype, orient, vals), result(f, o), attempt(stat.STATS[name], vals))
            if n < 4 and orient in ('ft', 'fview'):
                for name, m in BASE.items():
                    if name == 'mode' and not modeok(vals) or a in ('text', 'mix'):
                        continue
                    same(rec, 'object.%s|%s %s %s %r' % (m, a, rtype, orient, vals), result(getattr(o, m)), attempt(stat.STATS[name], vals))
            if observe(o, cell)[1] != t.data(cell):
                rec.violation('changed|%s %s %s %r' % (a, rtype, orient, vals))


def axis_expect(t, axis, name):
    vecs = [list(r) for r in t.rows] if axis == 'points' else [[r[j] for r in t.rows] for j in range(t.nf)]
    out = []
    for v in vecs:
        if name == 'mode' and not modeok(v):
            return None
        r = attempt(stat.STATS[name], v)
        if isinstance(r, str) and r == 'refused':
            return 'refused'
        out.append(r if isinstance(r, tuple) else (r,))
    return out


def label(s):
    return s.replace(' ', '').replace('_', '').lower()


def axis_check(rec, key, got, t, axis, name, heading):
    want = axis_expect(t, axis, name)
    if want is None:
        return
    rec.step()
    if want == 'refused':
        rec.rejected += 1
        if not (isinstance(got, tuple) and 'InvalidArgument' in got[1]):
            rec.violation(key, 'nothing to compute it from, got %r' % (got,))
        return
    if isinstance(got, tuple):
        rec.violation(key, 'got %r' % (got,))
        return
    shape, c, pn, fn = observe(got, approx)
    own, other = (t.pn, fn) if axis == 'points' else (t.fn, pn)
    if axis == 'features':
        c = tuple(zip(*c))
    w = tuple(tuple(form(v) for v in r) for r in want)
    if c != w or tuple(pn if axis == 'points' else fn) != tuple(own):
        rec.violation(key, 'got %r %r want %r %r' % (c, pn if axis == 'points' else fn, w, own))
    rec.outcome(w)
    h = ['quartile1', 'quartile2', 'quartile3'] if name == 'quartiles' else [heading]
    if [label(x or '') for x in other] != [label(x) for x in h]:
        rec.violation(key, 'headed %r not %r' % (other, h))


def objsafe(t):
    """statistics of a whole object which is not numeric are not computed"""
    return not strings(t)


def t_table(rec, rtype, i, variant):
    t = TABLES[i]
    o = make(t, rtype, variant)
    before = observe(o, cell)
    rec.state((rtype, variant, i))
    for axis in ('points', 'features'):
        ax = getattr(o, axis)
        for name, m in METHOD.items():
            axis_check(rec, '%s.%s()|%s %s %d' % (axis, m, rtype, variant, i), result(getattr(ax, m)), t, axis, name, m)
        for name, sp in SPELL.items():
            for s in sp:
                axis_check(rec, '%s.statistics(%s)|%s %s %d' % (axis, s, rtype, variant, i), result(ax.statistics, s), t, axis, name, s)
        for bad in ('average', '', 'min max', None, 3):
            r = result(ax.statistics, bad)
            rec.rejected += 1
            if not (isinstance(r, tuple) and 'InvalidArgument' in r[1]):
                rec.violation('%s.statistics accepts|%r %s %d' % (axis, bad, rtype, i), r)
        if not strings(t):
            similarities(rec, ax, t, axis, '%s %s %d' % (rtype, variant, i))
    flat = [v for r in t.rows for v in r]
    if objsafe(t):
        for name, m in BASE.items():
            same(rec, 'object.%s|%s %s %d' % (m, rtype, variant, i), result(getattr(o, m)), attempt(stat.STATS[name], flat))
    report(rec, o, t, '%s %s %d' % (rtype, variant, i))
    if observe(o, cell) != before:
        rec.violation('changed|%s %s %d' % (rtype, variant, i), '%r before %r' % (observe(o, cell), before))


def similarities(rec, ax, t, axis, key):
    vecs = [list(r) for r in t.rows] if axis == 'points' else [[r[j] for r in t.rows] for j in range(t.nf)]
    own = t.pn if axis == 'points' else t.fn
    for name, f in (('correlation', stat.correlation), ('covariance', stat.covariance), ('sample covariance', stat.covariance),
                    ('population covariance', lambda a, b: stat.covariance(a, b, False)), ('dot product', stat.dot), ('Dot Product', stat.dot)):
        if 'rod' in name and any(v != v for r in t.rows for v in r):
            continue   # a missing value times a zero
        got = result(ax.similarities, name)
        rec.step()
        want = tuple(tuple(form(f(a, b)) for b in vecs) for a in vecs)
        if isinstance(got, tuple):
            rec.violation('%s.similarities(%s)|%s' % (axis, name, key), got)
            continue
        s, c, pn, fn = observe(got, approx)
        if c != want:
            rec.violation('%s.similarities(%s)|%s' % (axis, name, key), 'got %r want %r' % (c, want))
        elif tuple(pn) != tuple(own) or tuple(fn) != tuple(own):
            rec.violation('%s.similarities(%s) names|%s' % (axis, name, key), 'got %r %r want %r' % (pn, fn, own))


REPORT = {'mean': 'mean', 'mode': 'mode', 'minimum': 'minimum', 'Q1': 0, 'median': 'median', 'Q3': 2, 'maximum': 'maximum', 'uniqueCount': 'uniqueCount', 'count': 'count',
          'standardDeviation': 'standardDeviation'}


def report(rec, o, t, key):
    def first(ft):
        return ft[0]

    def mean(ft):
        return 7
    for basic, extra in ((True, ()), (['Q3', 'mode', 'Q1'], [first]), (False, [first, mean]), (['mean'], [mean]), (['count', 'standardDeviation'], ())):
        cols = [[r[j] for r in t.rows] for j in range(t.nf)]
        stats = list(REPORT) if basic is True else basic or []
        if any(isinstance(v, str) for r in t.rows for v in r) and 'mode' in stats and not all(modeok(c) for c in cols):
            continue
        got = result(o.features.report, basic, extra)
        rec.step()
        if isinstance(got, tuple):
            rec.violation('features.report|%r %s' % (basic, key), got)
            continue
        want = []
        for j, col in enumerate(cols):
            row = [j]
            for s in stats:
                if isinstance(REPORT[s], int):
                    row.append(stat.quartiles(col)[REPORT[s]])
                else:
                    r = attempt(stat.STATS[REPORT[s]], col)
                    row.append(NAN if isinstance(r, str) and r == 'refused' else r)
            for f in extra:
                row.append(f(col))
            want.append(tuple(form(v) for v in row))
        heads = ['index'] + stats + [f.__name__ for f in extra]
        s, c, pn, fn = observe(got, approx)
        if c != tuple(want):
            rec.violation('features.report|%r %s' % (basic, key), 'got %r want %r' % (c, want))
        if tuple(pn) != tuple(t.fn):
            rec.violation('features.report names|%r %s' % (basic, key), pn)
        if len(set(heads)) == len(heads) and list(fn) != heads:
            rec.violation('features.report headings|%r %s' % (basic, key), fn)


def t_small(rec, rtype, shape):
    """every table of the shape"""
    p, q = shape
    alpha = [0, 1, -2, NAN] if p * q < 6 else [0, 3, NAN]
    for vals in itertools.product(alpha, repeat=p * q):
        t = Tab([list(vals[i * q:(i + 1) * q]) for i in range(p)], ['r%d' % i for i in range(p)], None)
        o = build(t, rtype)
        rec.state((rtype, t.data(cell)))
        key = '%s %r' % (rtype, t.rows)
        for axis in ('points', 'features'):
            ax = getattr(o, axis)
            similarities(rec, ax, t, axis, key)
            for name in ('maximum', 'variance', 'proportionZero', 'uniqueCount', 'mode', 'quartiles', 'sum'):
                axis_check(rec, '%s.%s()|%s' % (axis, METHOD[name], key), result(getattr(ax, METHOD[name])), t, axis, name, METHOD[name])
        for name, m in BASE.items():
            same(rec, 'object.%s|%s' % (m, key), result(getattr(o, m)), attempt(stat.STATS[name], vals))


def groups(t, by):
    """key -> rows without the features grouped by, in the order of the points"""
    one = not isinstance(by, list)
    js = [by] if one else by
    out = {}
    for i, r in enumerate(t.rows):
        k = r[by] if one else tuple(r[j] for j in js)
        out.setdefault(k, []).append(i)
    keep = [j for j in range(t.nf) if j not in js]
    return {k: Tab([[t.rows[i][j] for j in keep] for i in v], [t.pn[i] for i in v], [t.fn[j] for j in keep], len(keep)) for k, v in out.items()}, keep


def t_group(rec, rtype, i):
    t = TABLES[i]
    rec.state((rtype, i, 'group'))
    ok = [j for j in range(t.nf) if not any(v is None or isinstance(v, float) and v != v for v in (r[j] for r in t.rows))]
    bys = ok + [[j, k] for j in ok for k in ok if j != k] + [[j] for j in ok]
    for by in bys:
        if (1 if not isinstance(by, list) else len(by)) == t.nf:
            continue   # nothing is left
        for form_ in ('index', 'name'):
            ids = by
            if form_ == 'name':
                js = by if isinstance(by, list) else [by]
                if any(t.fn[j] is None for j in js):
                    continue
                ids = [t.fn[j] for j in js] if isinstance(by, list) else t.fn[by]
            want, keep = groups(t, by)
            key = '%s %d by %r' % (rtype, i, ids)
            o = build(t, rtype)
            got = result(o.groupByFeature, ids, useLog=False)
            rec.step()
            if not isinstance(got, dict) or list(got) != list(want):
                rec.violation('groupByFeature|' + key, 'got %r want %r' % (got, list(want)))
                continue
            for k in want:
                w = want[k]
                s, c, pn, fn = observe(got[k], cell)
                if c != w.data(cell) or tuple(pn) != tuple(w.pn) or tuple(fn) != tuple(w.fn):
                    rec.violation('groupByFeature group|%s %r' % (key, k), '%r %r %r want %r' % (c, pn, fn, w))
            got = result(o.groupByFeature, ids, countUniqueValueOnly=True, useLog=False)
            if got != {k: len(w.rows) for k, w in want.items()}:
                rec.violation('groupByFeature count|' + key, got)
            for name, m in METHOD.items():
                sub(rec, '%s(groupByFeature)|%s' % (m, key), result(getattr(o.features, m), groupByFeature=ids), want, name, m)
            for name, sp in SPELL.items():
                for s in sp[:2]:
                    sub(rec, 'statistics(%s, groupByFeature)|%s' % (s, key), result(o.features.statistics, s, groupByFeature=ids), want, name, s)
                    sub(rec, 'groupByFeature(calculate=%s)|%s' % (s, key), result(o.groupByFeature, ids, s, useLog=False), want, name, s)
            if observe(o, cell) != observe(build(t, rtype), cell):
                rec.violation('changed|' + key, observe(o, cell))


def sub(rec, key, got, want, name, heading):
    ws = {k: axis_expect(w, 'features', name) for k, w in want.items()}
    if any(w is None for w in ws.values()):
        return
    if any(w == 'refused' for w in ws.values()):
        rec.rejected += 1
        if not (isinstance(got, tuple) and 'InvalidArgument' in got[1]):
            rec.violation(key, 'nothing to compute it from, got %r' % (got,))
        return
    if not isinstance(got, dict) or list(got) != list(want):
        rec.step()
        rec.violation(key, 'got %r want %r' % (got, list(want)))
        return
    for k in want:
        axis_check(rec, '%s %r' % (key, k), got[k], want[k], 'features', name, heading)
