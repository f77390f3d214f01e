"""D16: equality of objects is equality of what they hold."""
import copy
import itertools
import numpy as np
import nimble
from mc.model import Tab, cell
from mc.obs import TYPES, build, observe
from mc.variants import MUTABLE, VIEWS, applicable, make

PROPERTY = 'D16'
LEVEL = 'model_checking'
RULE = ('every pair of tables over the alphabets (numbers of any type, booleans, missing values, text, text that looks like a number or a missing value; every shape up to 2x2, empty shapes, vectors) x every pair of hidden states and views; '
        'every pair of labellings of both axes; every pair of types; other objects; objects of more dimensions: isIdentical, ==, != and isApproximatelyEqual and hashCode against equality of the tables, in both directions, without changing either')
ASSUMPTIONS = ['objects of different types are not identical', 'None and NaN in the same object type may be the same or different', 'isApproximatelyEqual and hashCode are defined for numeric data', 'at least three of four of 16 or more small tables have a hash of their own']
NAN = float('nan')
NUM = {'small': [0, 1, -1, NAN], 'kinds': [0, 1, True, 1.0, 0.5, False], 'close': [0, 1e-12, 0.1 + 0.2, 0.3, 2.0 ** 53, 2 ** 53], 'big': [2 ** 53, 2 ** 53 + 1, -2 ** 62, -2 ** 62 - 1, 0], 'inf': [float('inf'), -float('inf'), NAN, 0]}
TXT = {'text': [1, '1', 'a', ''], 'nan': [NAN, 'nan', 'NaN', 'None', 0], 'inf': ['inf', float('inf'), 'a'], 'case': ['a', 'A', 'a ', 'b'], 'bools': [True, 'True', 1, 0]}
SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2)]


def alphabet(rtype):
    return dict(NUM) if rtype == 'Sparse' else {**NUM, **{'t' + k: v for k, v in TXT.items()}}


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for t in TYPES:
        for a in alphabet(t):
            for s in SHAPES:
                out.append(['pairs', t, a, list(s), deep])
        out += [['states', t, i, deep] for i in range(4)]
        out += [['names', t, deep], ['other', t, deep], ['empty', t, deep]]
    out += [['approx', deep], ['dims', deep]]
    return out


def run_task(task, rec):
    with np.errstate(all='ignore'):
        globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def eq(a, b):
    """equality of two cells; None: unspecified"""
    ma, mb = a is None or a != a, b is None or b != b
    if ma or mb:
        return ma and mb if (a is None) == (b is None) or not (ma and mb) else None
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


def same(x, y):
    if x.shape != y.shape or x.pn != y.pn or x.fn != y.fn:
        return False
    res = True
    for r, s in zip(x.rows, y.rows):
        for a, b in zip(r, s):
            e = eq(a, b)
            if e is None:
                return None
            res = res and e
    return res


def judge(rec, key, a, b, want):
    rec.step()
    if want is None:
        return
    for x, y, d in ((a, b, ''), (b, a, ' reversed')):
        try:
            got = x.isIdentical(y), x == y, not x != y
        except Exception as e:
            rec.violation('fails|' + key + d, '%s %s' % (type(e).__name__, e))
            continue
        if any(type(g) is not bool and not isinstance(g, np.bool_) for g in got) or any(bool(g) != want for g in got):
            rec.violation('equality|' + key + d, 'isIdentical, ==, not != are %r, want %r' % (got, want))
        rec.outcome((want,))


def stored(o, rows):
    """whether the object holds the values as they are (not converted on creation)"""
    return all(eq(o[i, j], v) for i, r in enumerate(rows) for j, v in enumerate(r))


def t_pairs(rec, rtype, aname, shape, deep):
    vals = alphabet(rtype)[aname]
    p, q = shape
    if p * q == 4:
        vals = vals[:3 if deep else 2]
    objs = []
    for flat in itertools.product(vals, repeat=p * q):
        rows = [list(flat[i * q:(i + 1) * q]) for i in range(p)]
        tab = Tab(rows)
        try:
            vs = [v for v in ('fresh', 'view', 'transposed') if applicable(tab, rtype, v) and (v == 'fresh' or p * q < 4)]
            for v in vs:
                o = make(tab, rtype, v)
                if stored(o, rows):
                    objs.append((tab, v, o))
        except Exception:
            rec.rejected += 1
    for (ta, va, oa), (tb, vb, ob) in itertools.product(objs, repeat=2):
        if va != 'fresh' and vb != 'fresh' and not deep:
            continue
        rec.state((rtype, aname, str(ta.rows), str(tb.rows), va, vb))
        judge(rec, '%s %s %r %r %s %s' % (rtype, aname, ta.rows, tb.rows, va, vb), oa, ob, same(ta, tb))
    for t, v, o in objs:
        if not stored(o, t.rows):
            rec.violation('changed|%s %r %s' % (rtype, t.rows, v), observe(o, cell))


STATES = [[[1, 0, 2], [0, NAN, 0]], [[0, 0], [0, 3]], [[1, 2, 0]], [[4], [0], [5]]]


def t_states(rec, rtype, which, deep):
    """every hidden state and view of a table against every one of it and its neighbours"""
    rows = STATES[which]
    pn, fn = ['p%d' % i for i in range(len(rows))], ['f%d' % i for i in range(len(rows[0]))]
    near = [rows]
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            for w in (0, 1, NAN):
                if not eq(v, w):
                    near.append([[w if (a, b) == (i, j) else x for b, x in enumerate(s)] for a, s in enumerate(rows)])
    for named in (True, False):
        base = Tab(rows, pn if named else None, fn if named else None)
        left = [(v, make(base, rtype, v)) for v in MUTABLE + VIEWS if applicable(base, rtype, v)]
        for rows2 in near:
            other = Tab(rows2, pn if named else None, fn if named else None)
            want = same(base, other)
            for w in MUTABLE + VIEWS:
                if not applicable(other, rtype, w):
                    continue
                for v, o in left:
                    rec.state((rtype, which, named, str(rows2), v, w))
                    p = make(other, rtype, w)
                    judge(rec, 'states %s %r %r %s %s named=%s' % (rtype, rows, rows2, v, w, named), o, p, want)
                if observe(p, cell) != observe(build(other, rtype), cell):
                    rec.violation('states changed|%s %r %s' % (rtype, rows2, w), observe(p, cell))


def t_names(rec, rtype, deep):
    """every pair of labellings"""
    letters = ['a', 'b', 'A', None]
    rows = [[1, 0], [0, 2]]
    labels = [list(n) for n in itertools.product(letters, repeat=2) if n[0] != n[1] or n[0] is None]
    for axis in ('points', 'features', 'both'):
        for x, y in itertools.product(labels, repeat=2):
            for vx, vy in (('fresh', 'fresh'), ('renamed', 'fresh'), ('named', 'renamed'), ('view', 'fresh'), ('view', 'view'), ('transposed', 'renamed'), ('fullview', 'preversed')):
                def t(n):
                    return Tab(rows, n if axis != 'features' else ['p', 'q'], n if axis != 'points' else None)
                a, b = t(x), t(y)
                if axis == 'both':
                    b = Tab(rows, y, x)
                rec.state((rtype, axis, str(x), str(y), vx, vy))
                judge(rec, 'names %s %s %r %r %s %s' % (rtype, axis, x, y, vx, vy), make(a, rtype, vx), make(b, rtype, vy), same(a, b))


def t_other(rec, rtype, deep):
    rows = [[1, 0], [0, 2]]
    for v in MUTABLE + VIEWS:
        tab = Tab(rows, ['p', 'q'], ['a', 'b'])
        if not applicable(tab, rtype, v):
            continue
        o = make(tab, rtype, v)
        for other in (rows, np.array(rows), None, 1, 'a', [], {}, rows[0], o.points, o.features, object(), nimble):
            rec.state((rtype, v, type(other).__name__))
            rec.step()
            try:
                got = o.isIdentical(other), o == other, not (o != other)
            except Exception as e:
                rec.violation('other|%s %s %s' % (rtype, v, type(other).__name__), '%s %s' % (type(e).__name__, e))
                continue
            if any(np.any(g) for g in got):
                rec.violation('other|%s %s %s' % (rtype, v, type(other).__name__), got)
        for t2 in TYPES:
            p = build(tab, t2)
            judge(rec, 'types %s %s %s' % (rtype, v, t2), o, p, rtype == t2)
            rec.step()
            if not o.isApproximatelyEqual(p) or o.hashCode() != p.hashCode() or not p.isApproximatelyEqual(o):
                rec.violation('approximately|%s %s %s' % (rtype, v, t2), (o.hashCode(), p.hashCode()))
        for c in (o.copy(), o.view(), copy.copy(o), copy.deepcopy(o), o.copy(rtype)):
            judge(rec, 'copy %s %s' % (rtype, v), o, c, True)
        judge(rec, 'itself %s %s' % (rtype, v), o, o, True)
        o2 = make(tab, rtype, v)
        o2.name = 'otherName'
        judge(rec, 'object name %s %s' % (rtype, v), o, o2, True)
        # equality follows changes
        if v in MUTABLE:
            a, b = make(tab, rtype, v), make(tab, rtype, 'fresh')
            for i, j, w in ((0, 1, 5), (0, 1, 0), (1, 1, 0), (1, 1, 2), (0, 0, 0)):
                a[i, j] = w
                rr = [list(r) for r in rows]
                rr[i][j] = w
                if (i, j) == (1, 1) and w == 0:
                    judge(rec, 'zeroed %s %s' % (rtype, v), a, build(Tab([[1, 0], [0, 0]], ['p', 'q'], ['a', 'b']), rtype), True)
                if w in (0, 2) and rr == rows:
                    judge(rec, 'restored %s %s' % (rtype, v), a, b, True)
                elif w == 5:
                    judge(rec, 'differs %s %s' % (rtype, v), a, b, False)
                if (i, j, w) == (0, 0, 0):
                    judge(rec, 'emptied %s %s' % (rtype, v), a, build(Tab([[0, 0], [0, 2]], ['p', 'q'], ['a', 'b']), rtype), True)


def t_empty(rec, rtype, deep):
    shapes = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (2, 1), (1, 2)]
    labels = {0: [None], 1: [None, ['a'], ['b']], 2: [None, ['a', 'b'], ['b', 'a'], ['a', None]]}
    objs = []
    for p, q in shapes:
        for pn in labels[p]:
            for fn in labels[q]:
                t = Tab([[0] * q for _ in range(p)], pn, fn, q)
                objs.append((t, build(t, rtype)))
                if p == 0 or q == 0:
                    objs.append((t, build(t, rtype).copy()))
    for (ta, a), (tb, b) in itertools.product(objs, repeat=2):
        rec.state((rtype, ta.shape, tb.shape, str(ta.pn), str(tb.pn), str(ta.fn), str(tb.fn)))
        judge(rec, 'empty %s %r %r %r, %r %r %r' % (rtype, ta.shape, ta.pn, ta.fn, tb.shape, tb.pn, tb.fn), a, b, same(ta, tb))
        rec.step()
        if ta.shape == tb.shape and not a.isApproximatelyEqual(b):
            rec.violation('empty approximately|%s %r' % (rtype, ta.shape), '')
        if ta.shape != tb.shape and a.isApproximatelyEqual(b):
            rec.violation('shapes approximately|%s %r %r' % (rtype, ta.shape, tb.shape), '')


def t_approx(rec, deep):
    """equal tables are approximately equal and have the same hash, in any type and hidden state"""
    for vals, shapes in (((0, 1, 2), SHAPES + [(1, 3), (3, 1)]), ((NAN, 0, 1), SHAPES), ((0, 0.5, -3), SHAPES), ((1, 1000), SHAPES + [(2, 3)]), ((True, False), SHAPES), ((0, 1), [(3, 2), (2, 3), (1, 5)] + ([(3, 3)] if deep else []))):
        for p, q in shapes:
            distinct, count = set(), 0
            for flat in itertools.product(vals, repeat=p * q):
                rows = [list(flat[i * q:(i + 1) * q]) for i in range(p)]
                tab = Tab(rows)
                rec.state((str(rows)))
                hs = []
                objs = []
                for t in TYPES:
                    for v in ('fresh', 'view', 'transposed', 'zeroed', 'preversed') if p * q < 5 else ('fresh',):
                        try:
                            o = make(tab, t, v)
                        except ValueError as e:
                            if 'object dtype' in str(e):  # scipy cannot hold these in a Sparse
                                rec.rejected += 1
                                continue
                            raise
                        objs.append(o)
                        rec.step()
                        try:
                            hs.append(o.hashCode())
                        except Exception as e:
                            rec.violation('hash fails|%r %s %s' % (rows, t, v), '%s %s' % (type(e).__name__, e))
                if len(set(hs)) > 1 or any(not 0 <= h < 1000000000 or not isinstance(h, int) for h in hs):
                    rec.violation('hashes|%r' % rows, hs)
                    continue
                distinct.update(hs)
                count += 1
                for a, b in zip(objs, objs[1:] + objs[:1]):
                    if not a.isApproximatelyEqual(b):
                        rec.violation('approximately|%r' % rows, (a.getTypeString(), b.getTypeString()))
            if count >= 16 and len(distinct) < 0.75 * count:
                rec.violation('hashes of different tables|%r %d %d' % (vals, p, q), (len(distinct), count))


def t_dims(rec, deep):
    shapes = [(1, 2, 2), (2, 1, 2), (2, 2, 1), (4, 1, 1), (1, 1, 4), (1, 4, 1), (1, 1, 2, 2), (2, 2), (1, 4), (4, 1)]
    for rtype in TYPES:
        objs = []
        for s in shapes:
            for fill in ([0, 1, 2, 3], [0, 1, 2, 4], [0, 0, 0, 0]):
                src = np.array(fill).reshape(s).tolist()
                o = nimble.data(src, returnType=rtype, useLog=False)
                objs.append((s, fill, o))
                try:
                    objs.append((s, fill, o.copy()))
                except ValueError as e:  # scipy cannot hold object dtype in a Sparse
                    if 'object dtype' not in str(e):
                        raise
                    rec.rejected += 1
        for (s1, f1, a), (s2, f2, b) in itertools.product(objs, repeat=2):
            rec.state((rtype, s1, s2, str(f1), str(f2)))
            judge(rec, 'dims %s %r %r %r %r' % (rtype, s1, f1, s2, f2), a, b, s1 == s2 and f1 == f2)
            rec.step()
            if a.isApproximatelyEqual(b) != (s1 == s2 and f1 == f2):
                rec.violation('dims approximately|%s %r %r %r %r' % (rtype, s1, f1, s2, f2), '')
