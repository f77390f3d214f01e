"""D12: matching selects and filling replaces exactly the described values."""
import itertools
import math
import numbers
import numpy as np
import nimble
from nimble import fill, match
from nimble.exceptions import InvalidArgumentValue
from mc.model import Tab, approx, cell
from mc.obs import TYPES, build, observe
from mc.variants import MUTABLE, VIEWS, applicable, make

PROPERTY = 'D12'
LEVEL = 'model_checking'
RULE = ('every nimble.match function on every value of the alphabet of kinds (python and numpy), their any/all forms and anyValues/allValues on every table over the alphabets up to 2x2, vectors of 3, empty tables, views and hidden states; '
        'the grammar of query strings (every name or none x operator x spacing x value, is / is not x function) through every method accepting a query; '
        'every nimble.fill function on every vector up to length 4 (5 thorough) x match argument x orientation x type x hidden state; points/features.fillMatching on every table x fill x matching argument x selection')
ASSUMPTIONS = ['whether a boolean is an integer, zero, positive is unspecified', 'whether None matches NaN given as a value is unspecified', 'ordering comparisons of text with numbers may raise',
               'a query string that can be read in two ways may be refused', 'means and medians of unmatched missing values are unspecified']
NAN = float('nan')
INF = float('inf')
TRUE, FALSE = (True, np.bool_(True)), (False, np.bool_(False))


def isbool(v):
    return isinstance(v, (bool, np.bool_))


def isnum(v):
    return isinstance(v, numbers.Number) and not isbool(v)


def isreal(v):
    return isnum(v) and not isinstance(v, (complex, np.complexfloating))


def nob(f):
    return lambda v: None if isbool(v) else f(v)


DEF = {'missing': lambda v: v is None or v != v, 'numeric': isnum, 'zero': nob(lambda v: isnum(v) and v == 0),
       'positive': nob(lambda v: isreal(v) and v > 0), 'negative': nob(lambda v: isreal(v) and v < 0),
       'infinity': lambda v: isinstance(v, (float, np.floating)) and v in (INF, -INF), 'boolean': isbool,
       'integer': nob(lambda v: isinstance(v, (int, np.integer))), 'floating': lambda v: isinstance(v, (float, np.floating)),
       'true': lambda v: isbool(v) and v == True, 'false': lambda v: isbool(v) and v == False}


def negate(f):
    return lambda v: None if f(v) is None else not f(v)


DEF.update({'non' + n.capitalize(): negate(DEF[n]) for n in ('missing', 'numeric', 'zero')})
VALUES = [None, NAN, np.nan, np.float32('nan'), np.float64('nan'), 0, 0.0, -0.0, np.int64(0), np.float32(0), 1, -1, 2.5, -0.5, 1e-320, np.float64(-2.5), np.float32(1.5), np.int8(3), np.int16(-3), np.uint8(200),
          2 ** 70, -2 ** 70, True, False, np.bool_(True), np.bool_(False), 'a', '', '0', '1', 'nan', 'None', 'True', INF, -INF, np.float64(INF), np.float32(-INF), 1j, np.str_('a')]


def combine(q, res):
    """any / all of True, False and unspecified (None)"""
    res = list(res)
    if q is any:
        return True if any(r is True for r in res) else None if None in res else False
    return False if any(r is False for r in res) else None if None in res else True


TABLES = {'num': [0, 1, -2], 'half': [NAN, 0.5, 0], 'text': ['a', 1, 0], 'textonly': ['', 'a'], 'bool': [True, False], 'mix': [True, 0, 'a'], 'nat': [NAN, 'a', -1], 'inf': [INF, -INF, 0, NAN]}
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2)]


def tables(rtype):
    return {k: v for k, v in TABLES.items() if rtype != 'Sparse' or not any(isinstance(x, (str, bool)) for x in v)}


def tasks(tier):
    deep = tier == 'thorough'
    out = [['element', deep]]
    for t in TYPES:
        for a in tables(t):
            out += [['anyall', t, a, list(s), deep] for s in SHAPES]
            out += [['values', t, a, list(s), deep] for s in ((1, 3), (3, 1), (2, 2))]
        out += [['anyall_states', t, i, deep] for i in range(2)]
        out += [['elementquery', t, a, deep] for a in tables(t)]
        out += [['axisquery', t, a, b, deep] for a in ('points', 'features') for b in (0, 1)]
        out += [['fillvec', t, a, n, deep] for a in ('num', 'half', 'text', 'mode', 'nat') for n in ((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5))
                if (deep or n < 4 or t != 'DataFrame' and a in ('num', 'half')) and t != 'Sparse' or a not in ('text', 'nat')]
        out += [['filltable', t, ax, i, deep] for ax in ('points', 'features') for i in range(4)]
        out += [['fillboth', t, deep]]
        if t != 'Sparse':
            out.append(['emptytext', t])
    return out


def run_task(task, rec):
    with np.errstate(all='ignore'):
        globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def same(got, want):
    return isinstance(got, (bool, np.bool_)) and bool(got) == want


def t_element(rec, deep):
    for n, f in DEF.items():
        for v in VALUES:
            rec.state((n, repr(v), type(v).__name__))
            want = f(v)
            if want is None:
                continue
            want = bool(want)
            rec.step()
            try:
                got = getattr(match, n)(v)
            except Exception as e:
                got = e
            if not same(got, want):
                rec.violation('element|%s %r %s' % (n, v, type(v).__name__), got)
            for text, w in (('is ' + n, want), ('is not ' + n, not want)):
                got = nimble.match.QueryString(text)(v)
                if not same(got, w):
                    rec.violation('element query|%s %r %s' % (text, v, type(v).__name__), got)
    for text, f in (('is True', 'true'), ('is False', 'false'), ('is None', None)):
        for v in VALUES:
            want = DEF[f](v) if f else v is None
            for t, w in ((text, want), (text.replace('is ', 'is not '), not want)):
                rec.step()
                got = nimble.match.QueryString(t)(v)
                if not same(got, w):
                    rec.violation('element query|%s %r %s' % (t, v, type(v).__name__), got)
    ops = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
    for (op, f), text, v, sp in itertools.product(ops.items(), ('1', '-2.5', '0', 'a', 'yes no', 'True', 'inf', '1e1', 'a b c', 'missing'), VALUES, ('', ' ')):
        rec.state((op, text, repr(v), sp, type(v).__name__))
        try:
            val = float(text)
        except ValueError:
            val = text
        try:
            want = bool(f(v, val))
        except TypeError:
            continue
        rec.step()
        for eq in (None, True):
            try:
                got = nimble.match.QueryString(op + sp + text, eq)(v)
            except Exception as e:
                got = e
            if not same(got, want):
                rec.violation('element query|%r %r %s %s' % (op + sp + text, v, type(v).__name__, eq), got)
        try:
            nimble.match.QueryString(op + sp + text, False)
            rec.violation('element query as axis|%r' % (op + sp + text), 'accepted')
        except InvalidArgumentValue:
            rec.rejected += 1


def checkall(rec, key, o, cells, names):
    for n in names:
        N = n[0].upper() + n[1:]
        for q, qn in ((any, 'any'), (all, 'all')):
            want = combine(q, (None if DEF[n](v) is None else bool(DEF[n](v)) for v in cells))
            if want is None:
                continue
            for how, fn in ((qn + N, getattr(match, qn + N)), ('%sValues(%s)' % (qn, n), getattr(match, qn + 'Values')(getattr(match, n)))):
                rec.step()
                try:
                    got = fn(o)
                except Exception as e:
                    got = '%s %s' % (type(e).__name__, e)
                if not same(got, want):
                    rec.violation('anyall|%s %s' % (how, key), got)
        rec.outcome((n, want))


def t_anyall(rec, rtype, aname, shape, deep):
    p, q = shape
    for flat in itertools.product(TABLES[aname], repeat=p * q):
        rows = [list(flat[i * q:(i + 1) * q]) for i in range(p)]
        o = build(Tab(rows), rtype)
        rec.state((rtype, str(rows)))
        cells = [o[i, j] for i in range(p) for j in range(q)]
        if [cell(c) for c in cells] != [cell(c) for r in rows for c in r]:
            rec.rejected += 1
            continue
        names = DEF if len({type(c) for c in flat}) == 1 or not rtype == 'DataFrame' else [n for n in DEF if n not in ('integer', 'floating')]
        checkall(rec, '%s %r' % (rtype, rows), o, cells, names)


STATES = [Tab([[1, 0, 2], [0, NAN, 0]], ['p', 'q'], ['a', 'b', 'c']), Tab([[0, 0], [3, 0]])]


def t_anyall_states(rec, rtype, which, deep):
    tab = STATES[which]
    for v in MUTABLE + VIEWS:
        if not applicable(tab, rtype, v):
            continue
        o = make(tab, rtype, v)
        for i0, i1, j0, j1 in itertools.product(range(2), range(2), range(tab.nf), range(tab.nf)):
            if i0 > i1 or j0 > j1:
                continue
            rec.state((rtype, which, v, i0, i1, j0, j1))
            w = o.view(i0, i1, j0, j1)
            cells = [tab.rows[i][j] for i in range(i0, i1 + 1) for j in range(j0, j1 + 1)]
            names = [n for n in DEF if n not in ('integer', 'floating', 'zero', 'nonZero')] + ['zero', 'nonZero']
            checkall(rec, '%s %r %s view %s' % (rtype, tab.rows, v, (i0, i1, j0, j1)), w, cells, names)
        # matching points and features
        for axis in ('points', 'features'):
            t = tab if axis == 'points' else tab.T
            for n in ('missing', 'zero', 'nonZero', 'positive', 'numeric'):
                for qn, qf in (('any', any), ('all', all)):
                    f = getattr(match, qn + n[0].upper() + n[1:])
                    want = [qf(bool(DEF[n](x)) for x in r) for r in t.rows]
                    o = make(tab, rtype, v)
                    before = observe(o)
                    rec.step()
                    key = '%s %r %s %s %s' % (rtype, tab.rows, v, axis, qn + n)
                    got = getattr(o, axis).matching(f)
                    g = [bool(x) for x in got.iterateElements()]
                    wshape = (len(want), 1) if axis == 'points' else (1, len(want))
                    if g != want or got.shape != wshape:
                        rec.violation('matching|' + key, (g, got.shape))
                    if getattr(o, axis).count(f) != sum(want):
                        rec.violation('count|' + key, getattr(o, axis).count(f))
                    keep = [i for i, x in enumerate(want) if x]
                    c = getattr(o, axis).copy(f)
                    wt = (tab.take(keep) if axis == 'points' else tab.takef(keep))
                    if observe(c)[:2] != wt.canon()[:2] or observe(o) != before:
                        rec.violation('copy|' + key, observe(c))


MATCHES = [0, 1, 'a', '', NAN, None, True, 0.5, [0, 'a'], [NAN, 1], (1,), {1, 'a'}, [], ['a'], 'ab', [None], [0, 1], [INF], [0.5, NAN], {'a': 1, 0: 2}, (NAN,), [True]]


def matched(m, v):
    """whether v is one of the values of m; None: unspecified"""
    if callable(m):
        r = DEF[m.__name__](v)
        return None if r is None else bool(r)
    vals = list(m) if isinstance(m, (list, tuple, set, dict)) else [m]
    if v is None or v != v:
        mm = [x for x in vals if x is None or x != x]
        if not mm:
            return False
        return True if any((x is None) == (v is None) for x in mm) else None
    return any(x is not None and x == x and isinstance(x, str) == isinstance(v, str) and bool(x == v) for x in vals)


def unmissed(v, m):
    """None in the data may have been stored as NaN"""
    return v is None or v != v


def t_values(rec, rtype, aname, shape, deep):
    p, q = shape
    vals = TABLES[aname]
    for flat in itertools.product(vals, repeat=p * q):
        rows = [list(flat[i * q:(i + 1) * q]) for i in range(p)]
        tab = Tab(rows)
        o = build(tab, rtype)
        cells = [o[i, j] for i in range(p) for j in range(q)]
        if [cell(c) for c in cells] != [cell(c) for c in flat]:
            rec.rejected += 1
            continue
        for m in MATCHES:
            rec.state((rtype, str(rows), repr(m)))
            res = [matched(m, c) for c in cells]
            for qf, qn in ((any, 'any'), (all, 'all')):
                want = combine(qf, res)
                if want is None:
                    continue
                rec.step()
                try:
                    got = getattr(match, qn + 'Values')(m)(o)
                except Exception as e:
                    got = '%s %s' % (type(e).__name__, e)
                if not same(got, want):
                    rec.violation('%sValues|%r %s %r' % (qn, m, rtype, rows), got)
            if isinstance(m, (list, tuple, set, dict)) or m is None or m != m or None in res or isinstance(m, str) and m == '':
                continue
            rec.step()
            got = o.matchingElements(m)
            if got.shape != (p, q) or [bool(x) for x in got.iterateElements()] != res or not all(isbool(x) for x in got.iterateElements()) or got.getTypeString() != rtype:
                rec.violation('matchingElements|%r %s %r' % (m, rtype, rows), got)


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def opdef(op, text):
    try:
        val = float(text)
    except ValueError:
        val = text

    def f(v):
        if v is None:
            return None
        try:
            return bool(OPS[op](v, val))
        except TypeError:
            return 'raises'
    return f


def conditions():
    for op, text, sp in itertools.product(OPS, ('0', '1', '-0.5', 'a', 'True'), ('', ' ')):
        yield op + sp + text, opdef(op, text)
    for n in list(DEF) + ['True', 'False']:
        f = DEF[n.lower() if n in ('True', 'False') else n]
        yield 'is ' + n, f
        yield 'is not ' + n, negate(f)


def t_elementquery(rec, rtype, aname, deep):
    vals = TABLES[aname]
    rows = [[vals[(i * 2 + j + i * j) % len(vals)] for j in range(3)] for i in range(2)]
    tab = Tab(rows, ['p', 'q'], ['a', 'b', 'c'])
    for v in MUTABLE + VIEWS:
        if not applicable(tab, rtype, v):
            continue
        o = make(tab, rtype, v)
        before = observe(o)
        cells = [[o[i, j] for j in range(3)] for i in range(2)]
        for text, f in conditions():
            rec.state((rtype, aname, v, text))
            if aname != 'num' and ('integer' in text or 'floating' in text):
                continue  # the kind of number stored in a mixed table is unspecified
            res = [[f(c) for c in r] for r in cells]
            flat = sum(res, [])
            if None in flat or 'raises' in flat:
                continue
            key = '%s %r %s %r' % (rtype, rows, v, text)
            rec.step()
            try:
                m = o.matchingElements(text)
                n = o.countElements(text)
                m2 = o.matchingElements(nimble.match.QueryString(text))
                sub = o.matchingElements(text, points='q', features=['c', 0])
                lab = o.matchingElements(f)
            except Exception as e:
                rec.violation('element query fails|' + key, '%s %s' % (type(e).__name__, e))
                continue
            want = Tab(res, tab.pn, tab.fn).canon()
            for g in (m, m2, lab):
                if observe(g) != want or not all(isbool(x) for x in g.iterateElements()):
                    rec.violation('matchingElements|' + key, observe(g))
            if n != sum(bool(x) for x in flat):
                rec.violation('countElements|' + key, n)
            # the selection is in the order of the arguments or of the object
            ws = [Tab([[res[1][2], res[1][0]]], ['q'], ['c', 'a']).canon(), Tab([[res[1][0], res[1][2]]], ['q'], ['a', 'c']).canon()]
            if observe(sub) not in ws:
                rec.violation('matchingElements of a selection|' + key, observe(sub))
            # writing through the match
            if v in ('fresh', 'transposed', 'zeroed', 'fread') and '' not in vals:
                x = make(tab, rtype, v)
                x.transformElements(lambda e: 9 if f(e) else None, skipNoneReturnValues=True, useLog=False)
                y = make(tab, rtype, v)
                y.features.fillMatching(9, text, useLog=False)
                z = make(tab, rtype, v)
                z.points.fillMatching(9, m, useLog=False)
                wantt = Tab([[9 if r else c for r, c in zip(rr, cc)] for rr, cc in zip(res, rows)], tab.pn, tab.fn).canon()
                for how, w in (('transformElements', x), ('fillMatching query', y), ('fillMatching matches', z)):
                    if observe(w) != wantt:
                        rec.violation('%s|%s' % (how, key), observe(w))
        if observe(o) != before:
            rec.violation('changed|%s %r %s' % (rtype, rows, v), observe(o))


NAMES = [['a', 'b'], ['a b', 'is'], ['is a', 'this'], ['a-b', 'b '], ['==', 'a=='], ['1', '0'], ['not', 'is not'], ['a is', 'x > y'], ['>a', '<= 2'], ['missing', 'is missing'], ['a is not', 'b is missing x']]


def t_axisquery(rec, rtype, axis, part, deep):
    """'NAME OPERATOR VALUE' selects the points (features) by their value in that feature (point)"""
    data = [[0, 1], [1, -0.5], [NAN, 0], [2, 1]] if rtype == 'Sparse' or part == 0 else [[0, 'a'], [1, 'True'], [NAN, 'a b'], [2, '']]
    off = 'features' if axis == 'points' else 'points'
    for names in NAMES:
        labels = ['w', 'x', 'y', 'z']
        tab = Tab(data, labels, names)
        for v in ('fresh', 'transposed', 'view', 'freversed', 'renamed') if deep else ('fresh', 'renamed', 'view') if names in NAMES[:2] else ('fresh', ):
            t = tab if axis == 'points' else tab.T
            if not applicable(t, rtype, v):
                continue
            o = make(t, rtype, v)
            stored = [[(o[i, j] if axis == 'points' else o[j, i]) for j in range(2)] for i in range(4)]
            for k, name in enumerate(names):
                plain = name in ('a', 'b', 'a-b', '1', '0', 'missing', 'this', 'not')
                for text, f in [(name + ' ' + op + ' ' + val, opdef(op, val)) for op in OPS for val in ('0', '1', '-0.5', 'a', 'True', 'a b', '')] + \
                        [(name + ' is ' + ('not ' if neg else '') + n, negate(DEF[n]) if neg else DEF[n]) for n in ('missing', 'numeric', 'zero', 'positive', 'nonMissing', 'integer', 'nonZero') for neg in (False, True)]:
                    # other readings of the same text
                    others = [m for m in names if m != name and text.startswith(m + ' ')]
                    if others or text in labels:
                        continue
                    rec.state((rtype, axis, text, v, str(names), part))
                    res = [f(r[k]) for r in stored]
                    key = '%s %s %r %r %s' % (rtype, axis, text, data, v)
                    if None in res or 'raises' in res:
                        continue
                    rec.step()
                    want = [i for i, r in enumerate(res) if r]
                    try:
                        n = getattr(o, axis).count(text)
                        c = getattr(o, axis).copy(text)
                    except Exception as e:
                        if plain or not isinstance(e, (InvalidArgumentValue, KeyError)):
                            rec.violation('axis query fails|' + key, '%s %s' % (type(e).__name__, e))
                        else:
                            rec.rejected += 1
                        continue
                    wt = tab.take(want)
                    wt = (wt if axis == 'points' else wt.T).canon()
                    if n != len(want) or observe(c) != wt:
                        rec.violation('axis query|' + key, (n, observe(c)))
                    if plain and v in ('fresh', 'transposed') and (deep or rtype != 'DataFrame' or k == 0):
                        for how in ('extract', 'delete', 'retain'):
                            x = make(t, rtype, v)
                            e = getattr(getattr(x, axis), how)(text, useLog=False)
                            rest = tab.take([i for i in range(4) if i not in want])
                            rest = (rest if axis == 'points' else rest.T).canon()
                            if observe(x) != (wt if how == 'retain' else rest) or how == 'extract' and observe(e) != wt:
                                rec.violation('axis query %s|%s' % (how, key), observe(x))


VEC = {'num': [0, 1, 4], 'half': [NAN, 1.5, 4], 'text': ['a', 'b', NAN], 'mode': [0, 1, 2], 'nat': [NAN, 'a', 2]}


def defs(func, vals, hit, kw):
    """the filled vector by definition; ValueError if there is none, None if unspecified; a list of alternatives for ties"""
    if func == 'constant':
        return [[kw['constantValue'] if h else v for v, h in zip(vals, hit)]]
    keep = [v for v, h in zip(vals, hit) if not h]
    if func in ('mean', 'median', 'mode'):
        if not any(hit):
            return [list(vals)]
        if not keep:
            raise ValueError
        if func != 'mode' and any(isinstance(v, str) for v in keep):
            raise ValueError
        if any(v != v for v in keep) or len({isinstance(v, str) for v in keep}) > 1:
            return None
        if func == 'mean':
            stats = [math.fsum(keep) / len(keep)]
        elif func == 'median':
            s = sorted(keep)
            stats = [(s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2]
        else:
            best = max(keep.count(v) for v in keep)
            stats = [v for v in keep if keep.count(v) == best]
        return [[s if h else v for v, h in zip(vals, hit)] for s in stats]
    if func == 'forwardFill':
        if hit[0]:
            raise ValueError
        out = []
        for v, h in zip(vals, hit):
            out.append(out[-1] if h else v)
        return [out]
    if func == 'backwardFill':
        if hit[-1]:
            raise ValueError
        out = []
        for v, h in zip(vals[::-1], hit[::-1]):
            out.append(out[-1] if h else v)
        return [out[::-1]]
    if func == 'interpolate':
        if not any(hit):
            return [list(vals)] if keep and not any(isinstance(v, str) or v != v for v in keep) else None
        if not keep or any(isinstance(v, str) or v != v for v in keep):
            return None
        at = [i for i, h in enumerate(hit) if not h]
        out = []
        for i, (v, h) in enumerate(zip(vals, hit)):
            if not h:
                out.append(v)
            elif i < at[0]:
                out.append(vals[at[0]])
            elif i > at[-1]:
                out.append(vals[at[-1]])
            else:
                a, b = max(k for k in at if k < i), min(k for k in at if k > i)
                out.append(vals[a] + (vals[b] - vals[a]) * (i - a) / (b - a))
        return [out]
    raise AssertionError(func)


FUNCS = ['constant', 'mean', 'median', 'mode', 'forwardFill', 'backwardFill', 'interpolate']


def vecmatches(aname):
    yield from {'num': [0, 1, [0, 1], match.zero, match.positive, match.missing, 7], 'half': [NAN, match.missing, [NAN, 4], 4, match.nonMissing],
                'text': ['a', NAN, ['a', NAN], match.missing, match.nonNumeric], 'mode': [0, [1, 2], match.nonZero], 'nat': [NAN, 'a', [NAN, 'a'], match.nonNumeric, match.numeric]}[aname]


def label(m):
    return m.__name__ if callable(m) else repr(m)


def t_fillvec(rec, rtype, aname, n, deep):
    alpha = VEC[aname]
    for vals in itertools.product(alpha, repeat=n):
        vals = list(vals)
        for orient in ('point', 'feature'):
            if n == 1 and orient == 'feature':
                continue
            named = Tab([vals], ['pt'], ['n%d' % i for i in range(n)])
            tab = named if orient == 'point' else named.T
            vs = ['fresh'] + (['view', 'transposed', 'zeroed', 'viewcopy'] if n < 3 or deep else ['view'] if n < 4 and aname in ('num', 'half') else [])
            for v in vs:
                if not applicable(tab, rtype, v):
                    continue
                o = make(tab, rtype, v)
                stored = list(o.iterateElements())
                if [cell(c) for c in stored] != [cell(c) for c in vals]:
                    rec.rejected += 1
                    continue
                before = observe(o)
                for m in vecmatches(aname):
                    hit = [matched(m, s) for s in stored]
                    if None in hit:
                        continue
                    for func in FUNCS:
                        rec.state((rtype, str(vals), orient, v, label(m), func))
                        key = '%s %s %r %s %s %s' % (func, rtype, vals, orient, v, label(m))
                        kw = {'constantValue': 9} if func == 'constant' else {}
                        try:
                            want = defs(func, vals, hit, kw)
                        except ValueError:
                            want = 'error'
                        if want is None:
                            continue
                        args = [m]
                        if func in ('forwardFill', 'mean', 'constant') and v == 'fresh':
                            args.append(o.matchingElements(m if callable(m) else match_fn(m)))
                        for a in args:
                            rec.step()
                            try:
                                got = getattr(fill, func)(o, a, **kw)
                            except InvalidArgumentValue as e:
                                rec.rejected += 1
                                if want != 'error':
                                    rec.violation('fill refused|' + key, e)
                                elif n > 1 and not (('the %s ' % orient) in str(e).lower() and ("'pt'" in str(e))):
                                    rec.violation('message|' + key, str(e))
                                continue
                            except Exception as e:
                                rec.violation('fill fails|' + key, '%s %s' % (type(e).__name__, e))
                                continue
                            if want == 'error':
                                rec.violation('fill accepted|' + key, observe(got))
                                continue
                            res = [approx(x) for x in got.iterateElements()]
                            if res not in [[approx(x) for x in w] for w in want] or got.shape != tab.shape:
                                rec.violation('fill|' + key, (got.shape, res))
                            rec.outcome((func, len(want)))
                if observe(o) != before:
                    rec.violation('fill changed its argument|%s %r %s %s' % (rtype, vals, orient, v), observe(o))


def match_fn(m):
    vals = m if isinstance(m, list) else [m]
    return lambda x: any(x == y or (x != x and y != y) for y in vals)


TABS = [Tab([[1, NAN, 2], [NAN, 3, NAN]], ['p', 'q'], ['a', 'b', 'c']), Tab([[0, 2], [1, 0], [5, 3]]), Tab([[1, 0, 0], [2, 5, 0], [0, 1, 7]], ['p', 'q', 'r'], None),
        Tab([[2, 4], [NAN, 0], [0, NAN], [8, 6]], None, ['a', 'b'])]


def t_filltable(rec, rtype, axis, which, deep):
    tab = TABS[which]
    t = tab if axis == 'points' else tab.T
    names = t.pn
    n = t.shape[0]
    sels = [None] + list(range(-n, n)) + [list(s) for k in (1, 2, n) for s in itertools.permutations(range(n), k) if deep or k < 3 or s[0] == n - 1 and s[1] == 0] + [[-1, 0], [0, -2]]
    if names[0] is not None:
        sels += names + [[names[-1], names[0]], [names[0], 1], tuple(names), [names[1]]]
    sels += [[]] if False else []
    ms = [0, NAN, [0, NAN], [1, 2], match.missing, match.zero, match.positive, 'is missing', '== 0', '>1', 'is not missing', 'matches', 'matches named', 'matches other']
    fills = [9, 'x', NAN, None, fill.mean, fill.median, fill.mode, fill.forwardFill, fill.backwardFill, fill.interpolate, 'constant', 'own']
    if rtype == 'Sparse':
        fills.remove('x')
    variants = ('fresh', 'transposed', 'zeroed', 'extracted', 'fread') if not deep else MUTABLE
    for v in variants:
        if not applicable(tab, rtype, v):
            continue
        probe = make(tab, rtype, v)
        for m in ms:
            for sel in sels if v == 'fresh' or deep else sels[:1] + sels[-2:]:
                idx = selected(sel, names, n)
                full = deep or sel is None and v == 'fresh' or sel in ([1, 0], [0]) and which != 2
                for fw in fills if full else (9, fill.mean, fill.forwardFill):
                    rec.state((rtype, axis, which, v, label(m), str(sel), str(fw) if not callable(fw) else fw.__name__))
                    key = '%s %s.fillMatching(%s, %s, %r) %r %s' % (rtype, axis, fw.__name__ if callable(fw) else fw, label(m), sel, tab.rows, v)
                    marg, hits = matching(m, tab, probe, rtype)
                    hits = hits if axis == 'points' else [list(c) for c in zip(*hits)]
                    try:
                        want = [[list(r)] for r in t.rows]
                        for i in idx:
                            fn = fw.__name__ if callable(fw) else 'constant'
                            const = 7 if fw == 'constant' or fw == 'own' else NAN if fw is None else fw
                            want[i] = defs(fn, t.rows[i], hits[i], {'constantValue': const})
                            if want[i] is None:
                                break
                    except ValueError:
                        want = 'error'
                    if want != 'error' and any(w is None for w in want):
                        continue
                    o = make(tab, rtype, v)
                    rec.step()
                    kw = {}
                    f = fw
                    if fw == 'constant':
                        f, kw = fill.constant, {'constantValue': 7}
                    elif fw == 'own':
                        f, kw = own, {'to': 7}
                    try:
                        r = getattr(o, axis).fillMatching(f, marg, sel, useLog=False, **kw)
                    except InvalidArgumentValue as e:
                        rec.rejected += 1
                        if want != 'error':
                            rec.violation('refused|' + key, e)
                        continue
                    except Exception as e:
                        rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                        continue
                    if want == 'error':
                        rec.violation('accepted|' + key, observe(o))
                        continue
                    got = observe(o, approx)
                    rows = got[1] if axis == 'points' else tuple(zip(*got[1]))
                    ok = r is None and got[0] == tab.shape and got[2:] == tab.canon()[2:] and all(
                        tuple(g) in [tuple(approx(x) for x in alt) for alt in w] for g, w in zip(rows, want))
                    if not ok:
                        rec.violation('fillMatching|' + key, got)


def own(vec, m, to):
    hit = m if isinstance(m, nimble.core.data.Base) else [matched_any(m, x) for x in vec]
    return [to if h else x for x, h in zip(vec, hit)]


def matched_any(m, x):
    if callable(m):
        return m(x)
    return matched(m, x)


def selected(sel, names, n):
    if sel is None:
        return list(range(n))
    if not isinstance(sel, (list, tuple)):
        sel = [sel]
    return [names.index(s) if isinstance(s, str) else s % n for s in sel]


def matching(m, tab, probe, rtype):
    """the argument and the hits it describes"""
    if isinstance(m, str) and m.startswith('matches'):
        hits = [[(i + j) % 2 == 0 for j in range(tab.nf)] for i in range(tab.np)]
        src = Tab(hits, tab.pn if m != 'matches' else None, tab.fn if m != 'matches' else None)
        return build(src, 'Matrix' if m == 'matches other' or rtype == 'Sparse' else rtype), hits
    if isinstance(m, str):
        f = {'is missing': DEF['missing'], 'is not missing': negate(DEF['missing']), '== 0': lambda v: v == 0, '>1': lambda v: v > 1}[m]
        return m, [[bool(f(x)) for x in r] for r in tab.rows]
    return m, [[matched(m, x) for x in r] for r in tab.rows]


def t_emptytext(rec, rtype):
    """empty strings that do not match are left as they are"""
    tab = Tab([['', 'a'], ['b', '']])
    for axis in ('points', 'features'):
        for m, want in (('a', [['', 9], ['b', '']]), ('c', [['', 'a'], ['b', '']])):
            rec.state((rtype, axis, m))
            rec.step()
            o = build(tab, rtype)
            getattr(o, axis).fillMatching(9, m, useLog=False)
            if observe(o) != Tab(want).canon():
                rec.violation('empty text|%s.fillMatching(9, %r) %s' % (axis, m, rtype), observe(o))


def t_fillboth(rec, rtype, deep):
    """one history of fills: each applies to the outcome of the one before"""
    ops = [('points', 9, 0), ('features', 9, 0), ('features', fill.forwardFill, NAN), ('points', 0, 9), ('points', fill.mode, [NAN, 1]), ('features', NAN, 9), ('points', NAN, 0), ('features', fill.mean, match.missing)]
    for tab in (TABS[0], TABS[1]):
        for hist in itertools.product(range(len(ops)), repeat=3 if deep else 2):
            o = build(tab, rtype)
            rows = [list(r) for r in tab.rows]
            done = []
            for k in hist:
                axis, fw, m = ops[k]
                done.append(k)
                rec.state((rtype, str(rows), k))
                vecs = rows if axis == 'points' else [list(c) for c in zip(*rows)]
                try:
                    new = []
                    for r in vecs:
                        fn = fw.__name__ if callable(fw) else 'constant'
                        new.append(defs(fn, r, [bool(matched(m, x)) for x in r], {'constantValue': fw}))
                except ValueError:
                    new = None
                if new is None or any(x is None or len(x) > 1 and any(y != x[0] for y in x) for x in new):
                    break
                new = [x[0] for x in new]
                rows = new if axis == 'points' else [list(c) for c in zip(*new)]
                rec.step()
                try:
                    getattr(o, axis).fillMatching(fw, m, useLog=False)
                except Exception as e:
                    rec.violation('history fails|%s %r %r' % (rtype, tab.rows, done), '%s %s' % (type(e).__name__, e))
                    break
                if observe(o, approx) != Tab(rows, tab.pn, tab.fn).canon(approx):
                    rec.violation('history|%s %r %r' % (rtype, tab.rows, done), observe(o, approx))
                    break
