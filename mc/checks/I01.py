"""I01: [] selects and assigns exactly the addressed cells, for every form of key."""
import itertools
import numpy as np

from mc.model import Tab, cell
from mc.obs import TYPES, observe, canon_tab
from mc.variants import make, applicable, MUTABLE, VIEWS
from nimble.core.data import Base

PROPERTY = 'I01'
LEVEL = 'model_checking'
RULE = ('for every table, storage type and hidden state or view: every key of a bounded key alphabet per axis (every integer, integral float, '
        'numpy integer and name in and just outside of the axis, every slice over these starts and stops with steps 1, 2, -1, -2, every list of '
        'up to three identifiers, every permutation and every boolean mask, as list, tuple, array and range) is used alone, with keys of the other '
        'axis, on points and on features, and twice in a row; the result must equal the cells and names an independent resolution of the key gives, '
        'refused keys must leave the object unchanged, and an assignment must change exactly the addressed cells')
ASSUMPTIONS = ['keys of an empty axis other than the full slice and the empty list, and boolean keys among integers as single identifiers are unspecified',
               'assignment through a key that is not a pair is unspecified']


class Refused(Exception):
    pass


class Unspec(Exception):
    pass


# ------------------------------------------------------------------ oracle
def one(names, k):
    n = len(names)
    if isinstance(k, str):
        if k not in names:
            raise Refused
        return names.index(k)
    if isinstance(k, float):
        if k != k or k != int(k):
            raise Refused
        k = int(k)
    k = int(k)
    if not -n <= k < n:
        raise Refused
    return k % n


def single(k):
    return isinstance(k, (int, float, str, np.integer))


def resolve(names, k):
    """(indices, whether the key addresses one identifier)"""
    n = len(names)
    if isinstance(k, bool):
        raise Unspec
    if single(k):
        return [one(names, k)], True
    if isinstance(k, slice):
        if k == slice(None):
            return list(range(n)), False
        if n == 0:
            raise Unspec
        step = 1 if k.step is None else k.step
        a = one(names, k.start) if k.start is not None else (0 if step > 0 else n - 1)
        b = one(names, k.stop) if k.stop is not None else (n - 1 if step > 0 else 0)
        if step == 0:
            raise Refused
        out = []
        while (a <= b) if step > 0 else (a >= b):
            out.append(a)
            a += step
        return out, False
    k = list(k)
    bools = [isinstance(x, (bool, np.bool_)) for x in k]
    if any(bools):
        if not all(bools) or len(k) != n:
            raise Refused
        return [i for i, x in enumerate(k) if x], False
    if n == 0 and k:
        raise Refused
    idx = [one(names, x) for x in k]
    if len(set(idx)) != len(idx):
        raise Refused
    return idx, False


def pair(t, key):
    if isinstance(key, tuple):
        return key
    if t.np == 1:
        return 0, key
    if t.nf == 1:
        return key, 0
    if isinstance(key, str):
        inp, inf = key in t.pn, key in t.fn
        if inp != inf:
            return (key, slice(None)) if inp else (slice(None), key)
    raise Refused


def want_get(t, key):
    x, y = pair(t, key)
    xi, sx = resolve(t.pn, x)
    yi, sy = resolve(t.fn, y)
    if sx and sy:
        return ('cell', cell(t.rows[xi[0]][yi[0]]))
    return canon_tab(t.take(xi).takef(yi))


def attempt(f):
    try:
        return f()
    except Refused:
        return 'refused'
    except Unspec:
        return 'unspecified'


def seen(r):
    return observe(r) if isinstance(r, Base) else ('cell', cell(r))


# ------------------------------------------------------------------ key alphabet
def keys(names, deep, small=False):
    n = len(names)
    ints = list(range(-n - 1, n + 1))
    named = [x for x in names if x is not None]
    out = list(ints) + [np.int64(i) for i in (0, n - 1, -1, n)] + [float(i) for i in ints] + [0.5, -0.5, np.float64(n - 1)]
    out += named + ['nosuch']
    ends = [None] + list(range(-n, n)) + named + [n, -n - 1, 1.0, float(n), 'nosuch']
    if small:
        ends = [None, 1, -1] + named[-1:] + [n]
    elif not deep:
        ends = ends[:-4] + [n, 1.0]
    for a in ends:
        for b in ends:
            for s in (None, -1) if small else (None, 1, 2, -1, -2):
                out.append(slice(a, b, s))
    out.append(slice(0, n - 1, 0))
    ids = list(range(-n, n)) + named[:2] + ([0.0, -1.0] if deep else [-1.0])
    for k in range(0, 4 if deep and n < 4 else 2 if small else 3):
        out += [list(x) for x in itertools.product(ids, repeat=k)]
    if n <= 4:
        for p in itertools.permutations(range(n)):
            out += [list(p), np.array(p, dtype=int), list(p[:-1])]
            out.append([i if (i % 2 or names[i] is None) else names[i] for i in p])
        for p in itertools.product((False, True), repeat=n):
            out += [list(p), np.array(p, dtype=bool), [np.bool_(x) for x in p], list(p) + [0], [-1] + list(p), list(p) + [True]]
            if n:
                out += [list(p[:-1]), list(p[:-1]) + [1]]
    for a in range(n):
        for b in range(a, n + 1):
            out += [range(a, b), tuple(range(a, b))]
    out += [[n], [0, n], [-n - 1], ['nosuch'], [0.5], [0, 'nosuch'], tuple(reversed(range(n))), range(n - 1, -1, -1)]
    return out


def few(names):
    n = len(names)
    out = [slice(None), [], slice(None, None, -1)]
    if n:
        out += [0, -1, [n - 1, 0] if n > 1 else [0], slice(1, None) if n > 1 else slice(0, 0), list(range(n))[::-1],
                [i % 2 == 0 for i in range(n)], n, list(range(1, n)) + [0]]
        if names[-1] is not None:
            out.append(names[-1])
    return out


def tabs(tier):
    out = [Tab([[1, 0, 2], [0, 3, 4], [5, 6, 0]], ['a', 'b', 'c'], ['x', 'y', 'z']),
           Tab([[0, 1], [2, 3], [4, 0], [5, 6]], ['a', None, 'c', None], None),
           Tab([[1, 0, 2, 3]], None, ['x', 'y', 'z', 'w']),
           Tab([[1, 0, 2]], None, [None, 'y', 'x']),
           Tab([[1], [0], [2]], ['a', 'b', 'c'], ['a']),
           Tab([[4]], ['a'], ['a']),
           Tab([[1, 2], [3, 0]], ['a', 'b'], ['b', 'c']),
           Tab([], None, ['x', 'y'], 2), Tab([[], []], ['a', 'b'], None, 0)]
    if tier == 'thorough':
        out += [Tab([[1, 0, 2, 0], [0, 3, 4, 1], [5, 6, 0, 2], [0, 7, 8, 0]], ['a', 'b', 'c', 'd'], [None, 'y', 'z', None]),
                Tab([['u', 1, 0], ['v', 0, 2], ['w', 3, 0]], None, ['x', 'y', 'z'])]
    return out


def strings(t):
    return any(isinstance(v, str) for r in t.rows for v in r)


def tasks(tier):
    out = []
    for i, t in enumerate(tabs(tier)):
        for rtype in TYPES:
            if strings(t) and rtype == 'Sparse':
                continue
            vs = MUTABLE + VIEWS
            for v in vs:
                if not applicable(t, rtype, v):
                    continue
                full = tier == 'thorough' or v in ('fresh', 'view')
                for what in ('get', 'axis') + (('twice',) if full else ()) + (('set',) if v not in VIEWS else ('viewset',)):
                    out.append([what, i, rtype, v, full, tier])
    return out


def show(k):
    if isinstance(k, tuple):
        return '[' + ', '.join(show(x)[1:-1] if i < 2 else show(x) for i, x in enumerate(k)) + ']'
    if isinstance(k, slice):
        return '[%s:%s:%s]' % tuple('' if x is None else repr(x) for x in (k.start, k.stop, k.step))
    return '[%r]' % (k,)


def compare(rec, o, t, f, want, what, before):
    """One transition: f on o must give want, and o must stay as it is."""
    rec.step()
    try:
        r = f()
        got = seen(r)
    except Exception as e:  # noqa
        r, got = None, 'refused'
        err = repr(e)[:200]
    else:
        err = ''
    if want == 'unspecified':
        rec.count('unspecified')
        return None
    if want == 'refused':
        rec.rejected += 1
    rec.outcome(got)
    if got != want:
        rec.violation(what, 'gave %r %s\nexpected %r' % (got, err, want))
    return r


def run_task(task, rec):
    what, i, rtype, v, full, tier = task
    t = tabs(tier)[i]
    deep = tier == 'thorough' or (full and v == 'fresh')
    name = '%r as %s %s' % (t, rtype, v)
    if what == 'set':
        return assign(t, rtype, v, full, rec, name, tier)
    o = make(t, rtype, v)
    clean = canon_tab(t)

    def unchanged(after):
        if observe(o) != clean:
            rec.violation('%s after %s' % (name, after), 'the object became %r' % (observe(o),))
    if what == 'viewset':
        for k in [(0, 0), (slice(None), slice(None)), (0, slice(None))]:
            try:
                o[k] = 9
            except Exception:  # noqa
                rec.rejected += 1
            rec.step()
            rec.state((name, show(k)))
            unchanged('refused assignment')
        rec.trace()
        return
    pk, fk = keys(t.pn, deep, not full), keys(t.fn, deep, not full)
    if what == 'get':
        pairs = []
        for k in pk:
            for y in (few(t.fn) if full and tier == 'thorough' else few(t.fn)[:4] if full else [slice(None), 0]):
                pairs.append((k, y))
        for k in fk:
            for x in (few(t.pn) if full and tier == 'thorough' else few(t.pn)[:4] if full else [slice(None), -1]):
                pairs.append((x, k))
        for k in pk + fk:
            if not isinstance(k, tuple):
                pairs.append(k)
        for n, key in enumerate(pairs):
            rec.state((name, show(key)))
            compare(rec, o, t, lambda: o[key], attempt(lambda: want_get(t, key)), '%s %s' % (name, show(key)), clean)
            if n % 40 == 0:
                unchanged('reading up to ' + show(key))
        unchanged('all reads')
    elif what == 'axis':
        for ax, ks, names in (('points', pk, t.pn), ('features', fk, t.fn)):
            for k in ks:
                def want():
                    idx = resolve(names, k)[0]
                    return canon_tab(t.take(idx) if ax == 'points' else t.takef(idx))
                rec.state((name, ax, show(k)))
                compare(rec, o, t, lambda: getattr(o, ax)[k], attempt(want), '%s .%s%s' % (name, ax, show(k)), clean)
        unchanged('all reads')
    else:
        # a selection of a selection is the selection of the composition
        k = 1 if tier == 'thorough' else 2
        a1 = [(x, y) for x in few(t.pn)[1:] for y in few(t.fn)[::k]]
        for k1 in a1:
            w1 = attempt(lambda: want_get(t, k1))
            if isinstance(w1, str) or w1[0] == 'cell':
                continue
            try:
                r1 = o[k1]
            except Exception:  # noqa
                continue
            x, y = pair(t, k1)
            t1 = t.take(resolve(t.pn, x)[0]).takef(resolve(t.fn, y)[0])
            for k2 in [(x, y) for x in few(t1.pn)[::k] for y in few(t1.fn)]:
                rec.state((name, show(k1), show(k2)))
                compare(rec, r1, t1, lambda: r1[k2], attempt(lambda: want_get(t1, k2)), '%s %s%s' % (name, show(k1), show(k2)), None)
            if observe(r1) != canon_tab(t1):
                rec.violation('%s %s, read' % (name, show(k1)), 'the selection became %r' % (observe(r1),))
        unchanged('all reads')
    rec.trace()


def assign(t, rtype, v, full, rec, name, tier):
    ps, fs = (keys(t.pn, False, tier != 'thorough'), keys(t.fn, False, tier != 'thorough')) if full else (few(t.pn), few(t.fn))
    todo = [(x, y) for x in ps for y in ([slice(None), 0, [-1, 0]] if full else few(t.fn))]
    todo += [(x, y) for y in fs for x in [slice(None), -1]]
    first = make(t, rtype, v)
    for n, key in enumerate(todo):
        # one object is used for many assignments: a history of assignments
        rows = [list(r) for r in t.rows]
        if n % 25 == 0:
            o = first if n == 0 else make(t, rtype, v)
            cur = Tab(rows, t.pn, t.fn, t.nf)

        def idx():
            return resolve(t.pn, key[0])[0], resolve(t.fn, key[1])[0]
        r = attempt(idx)
        for form in ('one', 'list'):
            new = [list(x) for x in cur.rows]
            if isinstance(r, str):
                val = 9
            else:
                xi, yi = r
                val = (n % 3) * 2 if form == 'one' else [[(n + a + 2 * b) % 4 for b in range(len(yi))] for a in range(len(xi))]
                for a, i in enumerate(xi):
                    for b, j in enumerate(yi):
                        new[i][j] = val if form == 'one' else val[a][b]
            rec.step()
            try:
                o[key] = val
                done = True
            except Exception as e:  # noqa
                done, err = False, e
            if r == 'unspecified':
                o, cur = make(t, rtype, v), Tab(t.rows, t.pn, t.fn, t.nf)
                break
            if r == 'refused':
                rec.rejected += 1
                if done:
                    rec.violation('%s %s = %r' % (name, show(key), val), 'was accepted')
                    break
            elif not done:
                rec.violation('%s %s = %r' % (name, show(key), val), repr(err)[:200])
                break
            else:
                cur = Tab(new, t.pn, t.fn, t.nf)
            got = observe(o)
            rec.state((name, got[1]))
            if got != canon_tab(cur):
                rec.violation('%s %s = %r' % (name, show(key), val), 'the object became %r\nexpected %r' % (got, canon_tab(cur)))
                o, cur = make(t, rtype, v), Tab(t.rows, t.pn, t.fn, t.nf)
            if isinstance(r, str):
                break
    rec.trace()
