"""M02: the learners of nimble, normalizeData and fillMatching compute what they define."""
import itertools
from collections import Counter
from fractions import Fraction as F
import numpy as np
import nimble
from nimble import match
from mc.model import Tab, cell
from mc.obs import TYPES, build, observe

PROPERTY = 'M02'
LEVEL = 'model_checking'
RULE = ('every training set over a grid x labels x k x test point for KNNClassifier (predictions and scores), every small integer system x penalty for RidgeRegression and its multi-output form, every design x outputs for MultiOutputLinearRegression, '
        'every pattern of missing values x k x mode x data applied to (the training data or other data) for KNNImputation, fillMatching with learners x match x points x features, normalizeData x learner x forms of its arguments; '
        'every pair of types; trained learners after the training data change')
ASSUMPTIONS = ['points at equal distance may be chosen in any order', 'results agree to 8 significant digits', 'labels are numbers or text']
NAN = float('nan')
ALPHA = {'grid': [0, 1, 2], 'tenths': [0.1, 0.2, 0.3], 'far': [1e6 + 0.1, 1e6 + 0.2, 1e6 + 0.4], 'mixed': [-1, 0.5, 1e3]}


class MCenter(nimble.CustomLearner):
    learnerType = 'transformation'

    def train(self, trainX, trainY=None, by=1):
        rows = [[float(v) for v in r] for r in observe(trainX)[1]]
        self.mean = [sum(c) / len(c) for c in zip(*rows)]
        self.extra = 0.0 if trainY is None else sum(float(r[0]) for r in observe(trainY)[1])
        self.by = by

    def apply(self, testX):
        return nimble.data([[(float(v) - m) * self.by + self.extra for v, m in zip(r, self.mean)] for r in observe(testX)[1]], useLog=False)


class MWiden(MCenter):
    def apply(self, testX):
        return nimble.data([[float(v) - m for v, m in zip(r, self.mean)] + [sum(float(v) for v in r)] for r in observe(testX)[1]], useLog=False)


class MZero(nimble.CustomLearner):
    """fills missing values with 100 + 10 * row + column"""
    learnerType = 'transformation'

    def train(self, trainX, trainY=None, add=100):
        self.add = add

    def apply(self, testX):
        return nimble.data([[self.add + 10 * i + j if v == 'NA' else v for j, v in enumerate(r)] for i, r in enumerate(observe(testX, cell)[1])], useLog=False)


class MChange(MZero):
    """changes what it should not: only matches are taken from it"""
    def apply(self, testX):
        return nimble.data([[self.add + 10 * i + j for j, v in enumerate(r)] for i, r in enumerate(observe(testX, cell)[1])], useLog=False)


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for a in ALPHA:
        for n in (1, 2, 3) + ((4,) if deep else ()):
            for k in range(1, n + 1):
                out.append(['knn', a, n, 1, k, deep])
                if n <= 3:
                    out.append(['knn', a, n, 2, k, deep])
    for q in (1, 2, 3):
        for p in (1, 2, 3):
            out.append(['ridge', p, q, deep])
    for p in (1, 2, 3, 4):
        for q in (1, 2):
            out.append(['linear', p, q, deep])
    for mode in ('classification', 'regression'):
        for k in (1, 2, 3):
            for s in range(4):
                out.append(['impute', mode, k, s, deep])
    for t in TYPES:
        out += [['fill', t, deep], ['normalize', t, deep], ['later', t, deep], ['types', t, deep]]
    return out


def run_task(task, rec):
    with np.errstate(all='ignore'):
        globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-8 * max(1, abs(float(a)), abs(float(b)))


def same(a, b):
    return all(near(x, y) if not isinstance(x, str) and not isinstance(y, str) else x == y for x, y in zip(a, b))


# ---------------------------------------------------------------- neighbours

def neighbours(train, test, k):
    """every choice of the k nearest, nearest first, ties in any order"""
    d = [sum((F(a) - F(b)) ** 2 for a, b in zip(r, test)) for r in train]
    groups = {}
    for i, v in enumerate(d):
        groups.setdefault(v, []).append(i)
    outs = [[]]
    for v in sorted(groups):
        nxt = []
        for o in outs:
            room = k - len(o)
            if room <= 0:
                nxt.append(o)
                continue
            nxt += [o + list(p) for p in itertools.permutations(groups[v], min(room, len(groups[v])))]
        outs = nxt
    return outs


def winners(train, labels, test, k):
    pred, scores = set(), set()
    for ns in neighbours(train, test, k):
        votes = Counter(labels[i] for i in ns)
        best = max(votes.values())
        pred.add(next(labels[i] for i in ns if votes[labels[i]] == best))
        scores.add(tuple(votes.get(lab, 0) for lab in sorted(set(labels))))
    return pred, scores


def t_knn(rec, alpha, n, q, k, deep):
    vals = ALPHA[alpha]
    pts = list(itertools.product(vals, repeat=q))
    if q == 2 and not deep:
        pts = [pts[i] for i in (0, 1, 3, 4, 8)]
    tests = [list(p) for p in pts]
    for train in itertools.combinations_with_replacement(pts, n):
        for labels in itertools.product((0, 1, 2) if n < 3 or deep else (0, 1), repeat=n):
            rec.state((alpha, train, labels, k))
            x = nimble.data([list(r) for r in train], returnType='Matrix', useLog=False)
            y = nimble.data([[v] for v in labels], returnType='Matrix', useLog=False)
            t = nimble.data(tests, returnType='Matrix', useLog=False)
            rec.step()
            try:
                tl = nimble.train('nimble.KNNClassifier', x, y, k=k, useLog=False)
                got = [r[0] for r in observe(tl.apply(t, useLog=False))[1]]
                sc = observe(tl.getScores(t))[1]
            except Exception as e:
                rec.violation('knn fails|%s %r %r k=%d' % (alpha, train, labels, k), '%s %s' % (type(e).__name__, e))
                continue
            for test, g, s in zip(tests, got, sc):
                want, scores = winners(train, labels, test, k)
                if g not in want:
                    rec.violation('knn|%s %r %r k=%d at %r' % (alpha, train, labels, k, test), 'got %r want %r' % (g, want))
                if tuple(s) not in scores:
                    rec.violation('knn scores|%s %r %r k=%d at %r' % (alpha, train, labels, k, test), 'got %r want %r' % (s, scores))
                rec.outcome((g, tuple(s)))


# ---------------------------------------------------------------- linear

def solve(a, b):
    """a x = b over fractions, None if a is singular"""
    n = len(a)
    m = [[F(v) for v in r] + [F(v) for v in s] for r, s in zip(a, b)]
    for c in range(n):
        piv = next((r for r in range(c, n) if m[r][c] != 0), None)
        if piv is None:
            return None
        m[c], m[piv] = m[piv], m[c]
        m[c] = [v / m[c][c] for v in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                m[r] = [v - m[r][c] * w for v, w in zip(m[r], m[c])]
    return [r[n:] for r in m]


def mul(a, b):
    return [[sum(F(x) * F(y) for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def ridge(x, y, lamb):
    g = mul(tr(x), x)
    for i in range(len(g)):
        g[i][i] += F(lamb)
    return solve(g, mul(tr(x), y))


def t_ridge(rec, p, q, deep):
    vals = (0, 1, -2) if p * q <= 4 or deep and p * q <= 6 else (0, 1)
    ys = [[[i + 1 if i % 2 else -i] for i in range(p)], [[1] for i in range(p)], [[0] for i in range(p)]]
    wide = [[[i, 1, 2 * i] for i in range(p)], [[1, 0] for i in range(p)]]
    tests = [[i + j for j in range(q)] for i in range(2)] + [[0] * q, [-3] * q]
    for flat in itertools.product(vals, repeat=p * q):
        x = [list(flat[i * q:(i + 1) * q]) for i in range(p)]
        ox, ot = (nimble.data(v, returnType='Matrix', useLog=False) for v in (x, tests))
        for lamb in (0, 0.5, 2):
            for learner, targets in (('nimble.RidgeRegression', ys), ('nimble.MultiOutputRidgeRegression', wide)):
                for y in targets:
                    if learner.startswith('nimble.M') and any(flat[:-2]) and not deep and lamb != 0.5:
                        continue
                    w = ridge(x, y, lamb)
                    rec.state((flat, lamb, str(y)))
                    rec.step()
                    key = '%s %r %r lamb=%r' % (learner, x, y, lamb)
                    try:
                        r = nimble.trainAndApply(learner, ox, nimble.data(y, returnType='Matrix', useLog=False), ot, lamb=lamb, useLog=False)
                    except Exception as e:
                        if w is not None:
                            rec.violation('ridge refused|' + key, '%s %s' % (type(e).__name__, e))
                        rec.rejected += 1
                        continue
                    if w is None:
                        continue  # singular: rounding may hide it
                    want = mul(tests, w)
                    got = observe(r)[1]
                    if len(got) != len(want) or not all(len(a) == len(b) and same(a, b) for a, b in zip(got, want)):
                        rec.violation('ridge|' + key, 'got %r want %r' % (got, [[float(v) for v in z] for z in want]))
                    rec.outcome(len(want[0]))


def t_linear(rec, p, q, deep):
    """least squares with an intercept"""
    vals = (0, 1, 3) if p * q <= 4 else (0, 1)
    ys = [[[i * i - 1, 2 - i] for i in range(p)], [[5, i, i % 2] for i in range(p)], [[i + 7] for i in range(p)]]
    for flat in itertools.product(vals, repeat=p * q):
        x = [list(flat[i * q:(i + 1) * q]) for i in range(p)]
        full = [[1] + r for r in x]
        tests = [[i - j for j in range(q)] for i in range(3)]
        for y in ys:
            rec.state((flat, str(y)))
            rec.step()
            key = 'linear %r %r' % (x, y)
            ox, oy = (nimble.data(v, returnType='Matrix', useLog=False) for v in (x, y))
            tl = nimble.train('nimble.MultiOutputLinearRegression', ox, oy, useLog=False)
            fit = [[float(v) for v in r] for r in observe(tl.apply(ox, useLog=False))[1]]
            # the errors are orthogonal to every feature, and to the intercept
            for col in tr(full):
                for o in range(len(y[0])):
                    if not abs(sum(c * (fit[i][o] - y[i][o]) for i, c in enumerate(col))) < 1e-7:
                        rec.violation('linear not least squares|' + key, fit)
            w = ridge(full, y, 0)
            if w is not None:
                want = mul([[1] + t for t in tests], w)
                got = observe(tl.apply(nimble.data(tests, returnType='Matrix', useLog=False), useLog=False))[1]
                if len(got) != len(want) or not all(len(a) == len(b) and same(a, b) for a, b in zip(got, want)):
                    rec.violation('linear|' + key, 'got %r want %r' % (got, [[float(v) for v in z] for z in want]))
            rec.outcome(w is None)


# ---------------------------------------------------------------- imputation

BASES = [[[0, 1, 2], [1, 1, 5], [4, 0, 2], [9, 3, 5]], [[1, 2], [1, 4], [2, 2], [7, 4]], [[0, 0, 7], [0, 0, 8], [5, 5, 8]]]


def impute(train, test, k, mode):
    """admissible tables, or None if it cannot be done"""
    out = []
    for row in test:
        known = [j for j, v in enumerate(row) if v is not None]
        new = []
        for j, v in enumerate(row):
            if v is not None:
                new.append([float(v)])
                continue
            pts = [r for r in train if r[j] is not None and all(r[m] is not None for m in known)]
            if not known or len(pts) < k:
                return None
            opts = set()
            for ns in neighbours([[r[m] for m in known] for r in pts], [row[m] for m in known], k):
                labs = [pts[i][j] for i in ns]
                if mode == 'regression':
                    opts.add(float(sum(F(a) for a in labs) / len(labs)))
                else:
                    c = Counter(labs)
                    opts |= {float(a) for a in c if c[a] == max(c.values())}
            new.append(sorted(opts))
        out.append(new)
    return out


def masks(rows, most):
    cells = [(i, j) for i in range(len(rows)) for j in range(len(rows[0]))]
    for n in range(most + 1):
        for m in itertools.combinations(cells, n):
            yield [[None if (i, j) in m else v for j, v in enumerate(r)] for i, r in enumerate(rows)]


def num(rows):
    return [[NAN if v is None else v for v in r] for r in rows]


def check_impute(rec, key, got, want):
    if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)) or not all(any(near(v, o) for o in opts) for a, b in zip(got, want) for v, opts in zip(a, b)):
        rec.violation('imputation|' + key, 'got %r want %r' % (got, want))


def t_impute(rec, mode, k, part, deep):
    rtype = TYPES[part]
    for bi, base in enumerate(BASES):
        if not deep and bi != (part + k) % 3 and bi != part % 3:
            continue
        for train in masks(base, 2):
            x = nimble.data(num(train), returnType=rtype, pointNames=['p%d' % i for i in range(len(base))], useLog=False)
            others = [train, base, train[::-1][:2], [[None if j == 0 else v for j, v in enumerate(base[-1])]]]
            want = impute(train, train, k, mode)
            rec.state((mode, k, str(train)))
            rec.step()
            key = '%s k=%d %s %r' % (mode, k, rtype, train)
            y = x.copy()
            missing = any(v is None for r in train for v in r)
            try:
                nimble.fillMatching('nimble.KNNImputation', match.missing, y, k=k, mode=mode, useLog=False)
                if want is not None:
                    check_impute(rec, 'fillMatching ' + key, observe(y)[1], want)
                    if y.points.getNames() != x.points.getNames():
                        rec.violation('imputation names|' + key, y.points.getNames())
                elif missing and any(None in r and all(v is None for v in r) for r in train):
                    pass
            except Exception as e:
                if want is not None:
                    rec.violation('imputation refused|' + key, '%s %s' % (type(e).__name__, str(e)[:200]))
                elif observe(y, cell) != observe(x, cell):
                    rec.violation('refused imputation changed data|' + key, observe(y))
                rec.rejected += 1
            try:
                tl = nimble.train('nimble.KNNImputation', x, k=k, mode=mode, useLog=False)
            except Exception as e:
                rec.violation('imputation training|' + key, '%s %s' % (type(e).__name__, str(e)[:200]))
                continue
            for test in others[0 if deep or part == 0 else 1:]:
                w = impute(train, test, k, mode)
                if w is None:
                    continue
                rec.step()
                t = nimble.data(num(test), returnType=rtype, useLog=False)
                try:
                    check_impute(rec, 'apply %s to %r' % (key, test), observe(tl.apply(t, useLog=False))[1], w)
                except Exception as e:
                    rec.violation('imputation apply|%s to %r' % (key, test), '%s %s' % (type(e).__name__, str(e)[:200]))
                rec.outcome((len(w), k))


# ---------------------------------------------------------------- fillMatching

def t_fill(rec, rtype, deep):
    tables = [[[1, NAN, 3], [NAN, 5, 6]], [[1, 2], [2, 1]], [[0, NAN], [NAN, NAN]], [[0, 1, 0], [NAN, 0, 2]]]
    if rtype != 'Sparse':
        tables += [[[1, 'a'], [2, NAN]], [['a', 'b'], ['c', 'a']]]
    matches = [('missing', match.missing, lambda v: v != v), ('nan', NAN, lambda v: v != v), ('one', 1, lambda v: not isinstance(v, str) and v == 1), ('list', [2, 5, 'a'], lambda v: v in (2, 5, 'a')),
               ('or', [NAN, 0], lambda v: v != v or (not isinstance(v, str) and v == 0)),
               ('func', lambda v: isinstance(v, str), lambda v: isinstance(v, str)), ('none', 77, lambda v: False), ('big', lambda v: v != v or (not isinstance(v, str) and v > 2), lambda v: v != v or (not isinstance(v, str) and v > 2))]
    for rows in tables:
        p, q = len(rows), len(rows[0])
        limits = [(None, None)] + [(i, None) for i in range(p)] + [(None, j) for j in range(q)] + [(['p1', 0], None), (None, ['f1', 0]), ([0], [1]), ('p1', 'f0'), ([], None), (-1, -1)]
        for mname, m, pred in matches:
            for form in ('function', 'mask'):
                for lname in (MZero, MChange):
                    for ps, fs in limits:
                        if lname is MChange and (ps, fs) != (None, None) and not deep:
                            continue
                        rec.state((rtype, str(rows), mname, form, lname.__name__, str(ps), str(fs)))
                        rec.step()
                        tab = Tab([list(r) for r in rows], ['p%d' % i for i in range(p)], ['f%d' % i for i in range(q)])
                        o = build(tab, rtype)
                        key = '%s %r %s %s %s points=%r features=%r' % (rtype, rows, mname, form, lname.__name__, ps, fs)
                        hit = [[bool(pred(v)) for v in r] for r in rows]
                        arg = nimble.data(hit, returnType='List' if rtype == 'Sparse' else rtype, useLog=False) if form == 'mask' else m
                        bad = any(v != v and not h for r, hr in zip(rows, hit) for v, h in zip(r, hr))

                        def idx(sel, n, pre):
                            if sel is None:
                                return set(range(n))
                            sel = sel if isinstance(sel, list) else [sel]
                            return {int(s[1:]) if isinstance(s, str) else s % n for s in sel}
                        pi, fi = idx(ps, p, 'p'), idx(fs, q, 'f')
                        want = tuple(tuple(cell(100 + 10 * i + j if hit[i][j] and i in pi and j in fi else rows[i][j]) for j in range(q)) for i in range(p))
                        before = observe(o, cell)
                        try:
                            r = nimble.fillMatching(lname, arg, o, points=ps, features=fs, useLog=False)
                        except Exception as e:
                            rec.rejected += 1
                            if not bad and not (ps == [] or fs == []):
                                rec.violation('fillMatching refused|' + key, '%s %s' % (type(e).__name__, str(e)[:200]))
                            elif observe(o, cell) != before:
                                rec.violation('fillMatching refused changed|' + key, observe(o))
                            continue
                        if bad:
                            rec.violation('fillMatching accepted|' + key, observe(o))
                            continue
                        if ps == [] or fs == []:
                            continue
                        s = observe(o, cell)
                        if s[1] != want or s[2:] != before[2:] or r is not None:
                            rec.violation('fillMatching|' + key, 'got %r want %r' % (s, want))


# ---------------------------------------------------------------- normalizeData

def t_normalize(rec, rtype, deep):
    rows, more = [[1, 4, 0], [2, 0, 3], [6, 2, 0]], [[0, 1, 2], [3, 3, 3]]
    ys = [7, 8, 9]
    names = (['a', 'b', 'c'], ['p0', 'p1', 'p2'])

    def stats(rs):
        return [F(sum(c), len(c)) for c in zip(*rs)]

    def centre(rs, mean, by=1, extra=0):
        return [[(v - m) * by + extra for v, m in zip(r, mean)] for r in rs]
    for named, view, ttype in itertools.product((True, False), (True, False), TYPES):
        def make(rs, rt, fn, pn):
            o = build(Tab([list(r) for r in rs], list(pn) if named else None, list(fn) if named else None), rt)
            return o.view() if view else o
        for test in (None, more):
            for ymode in ('none', 'object', 'index', 'name'):
                if ymode == 'name' and not named:
                    continue
                for lname, kw in ((MCenter, {}), (MCenter, {'by': 3}), ('custom.MCenter', {'by': 3}), (MWiden, {}), ('sklearn.StandardScaler', {'with_std': False}), ('sklearn.MinMaxScaler', {})):
                    rec.state((rtype, named, view, ttype, test is None, ymode, str(lname), str(kw)))
                    rec.step()
                    key = '%s %s named=%s view=%s test=%s y=%s %s %r' % (rtype, ttype, named, view, test is not None, ymode, lname if isinstance(lname, str) else lname.__name__, kw)
                    inX = [[y] + r for y, r in zip(ys, rows)] if ymode in ('index', 'name') else rows
                    fn = (['y'] if ymode in ('index', 'name') else []) + names[0]
                    x = make(inX, rtype, fn, names[1])
                    t = None if test is None else make(test, ttype, names[0], ['t0', 't1'])
                    y = {'none': None, 'object': nimble.data([[v] for v in ys], returnType=ttype, useLog=False), 'index': 0, 'name': 'y'}[ymode]
                    before = observe(x), None if t is None else observe(t)
                    mean = stats(rows)
                    if isinstance(lname, str) and lname.startswith('sk'):
                        if 'Std' in lname or 'Standard' in lname:
                            f = lambda rs: centre(rs, mean)
                        else:
                            lo, hi = [min(c) for c in zip(*rows)], [max(c) for c in zip(*rows)]
                            f = lambda rs: [[F(v - a, b - a) for v, a, b in zip(r, lo, hi)] for r in rs]
                        if 'Sparse' in (rtype, ttype if test is not None else None) or ymode != 'none':
                            continue
                    elif lname is MWiden:
                        f = lambda rs: [a + [sum(r)] for a, r in zip(centre(rs, mean), rs)]
                    else:
                        ex = 0 if ymode == 'none' else sum(ys)
                        f = lambda rs: centre(rs, mean, kw.get('by', 1), ex)
                    want = [f(rows)] + ([] if test is None else [f(test)])
                    try:
                        r = nimble.normalizeData(lname, x, y, t, useLog=False, **kw)
                    except Exception as e:
                        rec.violation('normalizeData fails|' + key, '%s %s' % (type(e).__name__, str(e)[:200]))
                        continue
                    rs = r if isinstance(r, tuple) else (r,)
                    if len(rs) != len(want):
                        rec.violation('normalizeData returned|' + key, type(r).__name__)
                        continue
                    for got, w, src, n in zip(rs, want, (x, t), ('train', 'test')):
                        g = observe(got)
                        if g[0] != (len(w), len(w[0])) or not all(same(a, b) for a, b in zip(g[1], w)):
                            rec.violation('normalizeData %s|%s' % (n, key), 'got %r want %r' % (g[1], [[float(v) for v in z] for z in w]))
                            continue
                        if got.getTypeString() != src.getTypeString():
                            rec.violation('normalizeData type|%s %s' % (n, key), got.getTypeString())
                        if named and len(w[0]) == 3 and list(g[3]) != names[0]:
                            rec.violation('normalizeData names|%s %s' % (n, key), g[3])
                    if before != (observe(x), None if t is None else observe(t)):
                        rec.violation('normalizeData changed its arguments|' + key, '')


# ---------------------------------------------------------------- representation and later changes

def t_types(rec, rtype, deep):
    x = [[0, 1], [2, 0], [3, 3], [5, 4]]
    ys = {'labels': [0, 1, 1, 0], 'text': ['a', 'b', 'b', 'a'], 'float': [0.5, 1.5, 1.5, 0.5]}
    t = [[0, 0], [4, 4], [2, 1]]
    for yname, lab in ys.items():
        for ytype, ttype, form in itertools.product(TYPES, TYPES, ('object', 'index', 'name', 'view')):
            text = yname == 'text'
            if text and ('Sparse' in (ytype, rtype) and form != 'object' or ytype == 'Sparse'):
                continue
            if form in ('index', 'name') and ytype != rtype:
                continue
            key = '%s %s %s %s %s' % (rtype, ytype, ttype, form, yname)
            rec.state(key)
            fn = ['f0', 'f1']
            if form in ('index', 'name'):
                ox = build(Tab([r + [v] for r, v in zip(x, lab)], None, fn + ['y']), rtype)
                oy = -1 if form == 'index' else 'y'
            else:
                ox, oy = build(Tab([list(r) for r in x], None, fn), rtype), build(Tab([[v] for v in lab], None, ['y']), ytype)
                if form == 'view':
                    ox, oy = ox.view(), oy.view()
            ot = build(Tab([list(r) for r in t], None, fn), ttype)
            for k in (1, 3):
                rec.step()
                try:
                    tl = nimble.train('nimble.KNNClassifier', ox, oy, k=k, useLog=False)
                    got = [r[0][2:] if text else r[0] for r in observe(tl.apply(ot, useLog=False))[1]]
                    sc = observe(tl.getScores(ot))[1]
                except Exception as e:
                    rec.violation('types knn|%s k=%d' % (key, k), '%s %s' % (type(e).__name__, e))
                    continue
                for test, g, s in zip(t, got, sc):
                    want, scores = winners(x, lab, test, k)
                    if g not in want or tuple(s) not in scores:
                        rec.violation('types knn|%s k=%d at %r' % (key, k, test), (g, s, want, scores))
            if not text:
                for learner in ('nimble.RidgeRegression', 'nimble.MultiOutputRidgeRegression'):
                    rec.step()
                    want = mul(t, ridge(x, [[F(v)] for v in lab], 1))
                    try:
                        got = observe(nimble.trainAndApply(learner, ox, oy, ot, lamb=1, useLog=False))[1]
                        ok = all(same(a, b) for a, b in zip(got, want)) and len(got) == len(want)
                    except Exception as e:
                        got, ok = '%s %s' % (type(e).__name__, e), False
                    if not ok:
                        rec.violation('types %s|%s' % (learner, key), got)


def t_later(rec, rtype, deep):
    """trained learners do not change with the data they were trained on"""
    x, y, t = [[0, 1], [2, 0], [3, 3], [5, 4]], [[0], [1], [1], [0]], [[0, 0], [4, 4], [2, 1]]
    xm = [[0, 1], [2, NAN], [3, 3], [5, 4]]
    for learner, kw, xx, yy, tt in (('nimble.KNNClassifier', {'k': 1}, x, y, t), ('nimble.RidgeRegression', {'lamb': 1}, x, y, t), ('nimble.MultiOutputRidgeRegression', {'lamb': 1}, x, y, t),
                                    ('nimble.MultiOutputLinearRegression', {}, x, y, t), ('nimble.KNNImputation', {'k': 1, 'mode': 'regression'}, xm, None, [[4, NAN], [NAN, 1], [2, 5]]),
                                    ('sklearn.KNeighborsClassifier', {'n_neighbors': 1}, x, y, t), ('sklearn.LinearRegression', {}, x, y, t)):
        for change in ('transform', 'sort', 'delete', 'setNames', 'append', 'fill'):
            for which in ('x', 'y', 'both'):
                if yy is None and which != 'x':
                    continue
                rec.state((rtype, learner, change, which))
                rec.step()
                ox = build(Tab([list(r) for r in xx], ['p%d' % i for i in range(4)], ['a', 'b']), rtype)
                oy = None if yy is None else build(Tab([list(r) for r in yy], None, ['y']), rtype)
                ot = build(Tab([list(r) for r in tt], None, ['a', 'b']), rtype)
                tl = nimble.train(learner, ox, oy, useLog=False, **kw)
                first = observe(tl.apply(ot, useLog=False), cell)
                for o in {'x': [ox], 'y': [oy], 'both': [ox, oy]}[which]:
                    if change == 'transform':
                        o.transformElements(lambda v: 9 - v, useLog=False)
                    elif change == 'sort':
                        o.points.permute([2, 0, 3, 1], useLog=False)
                    elif change == 'delete':
                        o.points.delete([0, 1, 2], useLog=False)
                    elif change == 'setNames':
                        o.features.setNames(['q%d' % i for i in range(len(o.features))], useLog=False)
                    elif change == 'append':
                        o.points.append(o.copy().points.copy([0, 1]) if not len(o.points._getNamesNoGeneration() or ()) else build(Tab([[1] * len(o.features)], ['new'], list(o.features.getNames())), rtype), useLog=False)
                    else:
                        o.points.fillMatching(50, [0, 1], useLog=False)
                try:
                    again = observe(tl.apply(ot, useLog=False), cell)
                except Exception as e:
                    again = '%s %s' % (type(e).__name__, e)
                if again != first:
                    rec.violation('later|%s %s %s of %s' % (rtype, learner, change, which), 'got %r want %r' % (again, first))
