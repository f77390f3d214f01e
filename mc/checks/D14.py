"""D14: objects with more than two dimensions."""
import itertools
import os
import operator
import tempfile
import numpy as np
import nimble
from nimble.exceptions import NimbleException, ImproperObjectAction
from mc.core import SCRATCH
from mc.obs import TYPES

PROPERTY = 'D14'
LEVEL = 'model_checking'
RULE = ('every sequence of operations up to the depth from every start of three and four dimensions x named or not x type: after each the dimensions, the nested elements, every point, the labels, the flattened elements, copies, equality and what is returned '
        'are those of a nested array; every public method either works so or is refused with nothing changed')
ASSUMPTIONS = ['Sparse is built from numeric arrays (the installed scipy has no sparse objects)']

STARTS = [((2, 2, 2), 'int'), ((3, 1, 2), 'float'), ((2, 2, 1, 3), 'int'), ((3, 2, 2), 'zero'), ((1, 2, 3), 'int'), ((2, 3, 1), 'text'), ((4, 1, 1), 'nan'), ((2, 1, 2, 1, 2), 'int'), ((2, 2, 2), 'last')]
DEEP = (0, 8)


def array(dims, kind):
    n = int(np.prod(dims))
    if kind == 'int':
        a = np.arange(1, n + 1)
    elif kind == 'float':
        a = np.arange(n) * 0.5 - 1
    elif kind == 'zero':
        a = np.array([(i % 3) * (-1) ** i for i in range(n)])
    elif kind == 'last':
        a = np.array([float(n - 1 - i) for i in range(n)])
    elif kind == 'nan':
        a = np.array([float('nan') if i % 4 == 1 else float(3 - i) for i in range(n)])
    else:
        a = np.array(['t%d' % (i % 5) for i in range(n)], dtype=object)
    return a.reshape(dims)


def same(x, y):
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return type(x) == type(y) and x == y
    if x is None or y is None:
        x, y = (float('nan') if v is None else v for v in (x, y))
    return x == y or (x != x and y != y) or abs(x - y) < 1e-9


class St:
    """the model: a nested array with labels of the points and of the flattened features"""
    def __init__(self, arr, pn=None, fn=None):
        self.arr, self.pn, self.fn = arr, list(pn) if pn is not None else None, list(fn) if fn is not None else None

    @property
    def pnames(self):
        return self.pn if self.pn is not None else [None] * self.arr.shape[0]

    @property
    def fnames(self):
        return self.fn if self.fn is not None else [None] * int(np.prod(self.arr.shape[1:]))

    def take(self, idx):
        return St(self.arr[list(idx)], [self.pnames[i] for i in idx], self.fn)

    def key(self):
        return (self.arr.shape, repr(self.arr.tolist()), tuple(self.pnames), tuple(self.fnames))


def construct(st, t, form='array'):
    src = st.arr if form == 'array' or t == 'Sparse' else st.arr.tolist()
    return nimble.data(src, pointNames=st.pn if st.pn and any(x is not None for x in st.pn) else None, featureNames=st.fn if st.fn and any(x is not None for x in st.fn) else None, returnType=t, useLog=False,
                       treatAsMissing=None, convertToType=None)


def mismatch(o, st, deep=True):
    """what of the object is not as in the model"""
    a = st.arr
    out = []
    if tuple(o.dimensions) != a.shape:
        return ['dimensions %s, want %s' % (o.dimensions, a.shape)]
    two = (a.shape[0], int(np.prod(a.shape[1:])))
    if tuple(o.shape) != two or len(o.points) != two[0] or len(o.features) != two[1] or len(list(o.points.getNames())) != two[0] or len(o.features.getNames()) != two[1]:
        out.append('shape %s of %s' % (o.shape, a.shape))
    lst = o.copy('python list')
    if not same(lst, a.tolist()):
        out.append('elements %s, want %s' % (lst, a.tolist()))
    if o.points.getNames() != st.pnames:
        out.append('point names %s, want %s' % (o.points.getNames(), st.pnames))
    if o.features.getNames() != st.fnames:
        out.append('feature names %s, want %s' % (o.features.getNames(), st.fnames))
    if not deep or out:
        return out
    arr = o.copy('numpy array')
    if arr.shape != a.shape or not same(arr.tolist(), a.tolist()):
        out.append('array %s' % arr.tolist())
    for i, p in enumerate(o.points):
        if tuple(p.dimensions) != (a.shape[1:] if a.ndim > 2 else (1,) + a.shape[1:]) or not same(p.copy('python list'), a[i].tolist() if a.ndim > 2 else [a[i].tolist()]):
            out.append('point %d of the iteration is %s of %s' % (i, p.copy('python list'), p.dimensions))
    for i in range(len(a)):
        q = o.points[i]
        if not same(q.copy('python list'), a[i].tolist() if a.ndim > 2 else [a[i].tolist()]):
            out.append('point %d is %s' % (i, q.copy('python list')))
    if a.size:
        back = np.array(lst, dtype=object).reshape(a.shape)
        ref = construct(St(back if o.getTypeString() != 'Sparse' else back.astype(float), st.pn, st.fn), o.getTypeString())
        if not o.isIdentical(ref) or not ref == o:
            out.append('not identical to an object constructed with the same')
        if a.ndim > 2:
            flat = nimble.data(a.reshape(two), returnType=o.getTypeString(), pointNames=st.pn if any(st.pnames) else None, featureNames=st.fn if any(st.fnames) else None, useLog=False, treatAsMissing=None, convertToType=None)
            if o == flat or flat == o or o.isIdentical(flat) or flat.isApproximatelyEqual(o):
                out.append('equal to the flattened object')
        numeric = a.dtype != object
        if numeric and o.containsZero() != bool((a == 0).any()):
            out.append('containsZero %s' % o.containsZero())
    try:
        o.checkInvariants()
    except Exception as e:
        out.append('checkInvariants: %s %s' % (type(e).__name__, e))
    return out


def total(a):
    """an order of the points which is defined for every one of them"""
    return repr(a)


BIN = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv), ('//', operator.floordiv), ('%', operator.mod), ('**', operator.pow)]
INPLACE = [('+', operator.iadd), ('-', operator.isub), ('*', operator.imul), ('/', operator.itruediv)]


def operations(st):
    """name, function of object and model -> new object, new model, other expectations [(object, model)]"""
    n = st.arr.shape[0]
    if st.arr.ndim <= 2 or n == 0:
        return
    numeric = st.arr.dtype != object
    subsets = [s for k in range(1, n) for s in itertools.combinations(range(n), k)]
    orders = list(itertools.permutations(range(n)))
    for s in subsets + [tuple(reversed(range(n)))]:
        rest = [i for i in range(n) if i not in s]
        yield 'copy%s' % (s,), lambda o, s=s: (o.points.copy(list(s)), st.take(s), [(o, st)])
        if rest:
            yield 'extract%s' % (s,), _extract_op(s, rest, st)
            yield 'delete%s' % (s,), lambda o, s=s, rest=rest: (o.points.delete(list(s)), (o, st.take(rest), []))[1]
        yield 'retain%s' % (s,), lambda o, s=s: (o.points.retain(list(s)), (o, st.take(s), []))[1]
    for a in range(n):
        for b in range(a, n):
            yield 'copy start=%d end=%d' % (a, b), lambda o, a=a, b=b: (o.points.copy(start=a, end=b), st.take(range(a, b + 1)), [(o, st)])
            yield 'view %d %d' % (a, b), lambda o, a=a, b=b: (o.view(pointStart=a, pointEnd=b).copy(), st.take(range(a, b + 1)), [(o, st), (o.view(pointStart=a, pointEnd=b), st.take(range(a, b + 1)))])
            if a == b:
                yield 'pointView %d' % a, lambda o, a=a: (o.pointView(a).copy(), St(st.arr[a]), [(o, st), (o.pointView(a), St(st.arr[a]))])
    yield 'copy number=1', lambda o: (o.points.copy(number=1), st.take([0]), [(o, st)])
    for p in orders[1:]:
        yield 'permute%s' % (p,), lambda o, p=p: (o.points.permute(list(p)), (o, st.take(p), []))[1]
    yield 'sort()', lambda o: _sort_names(o, st, False)
    yield 'sort(reverse)', lambda o: _sort_names(o, st, True)
    yield 'sort(key)', lambda o: _sort_key(o, st, False)
    yield 'sort(key, reverse)', lambda o: _sort_key(o, st, True)
    for r in (1, 2):
        yield 'repeat(%d, True)' % r, lambda o, r=r: _repeat(o, st, r, True)
        yield 'repeat(%d, False)' % r, lambda o, r=r: _repeat(o, st, r, False)
    for at in range(n + 1):
        yield 'insert %d' % at, lambda o, at=at: _insert(o, st, at)
    yield 'append', lambda o: _insert(o, st, None)
    for i in range(n):
        yield 'replace %d' % i, lambda o, i=i: _replace(o, st, i)
    yield 'unique', lambda o: _unique(o, st)
    yield 'copy()', lambda o: (o.copy(), st, [(o, st)])
    for t in TYPES:
        if numeric or t != 'Sparse':
            yield 'copy(%s)' % t, lambda o, t=t: (o.copy(t), st, [(o, st)])
    yield 'flatten, unflatten', lambda o: _flat(o, st)
    yield 'unflatten to other dimensions', lambda o: _reflat(o, st)
    yield 'pickle', lambda o: _save(o, st, '.pickle')
    yield 'setNames', lambda o: _names(o, st)
    yield 'trainAndTestSets', lambda o: _split(o, st)
    if numeric:
        for nm, f in BIN:
            for c in (2, 0.5) if nm != '**' else (2,):
                yield 'o %s %s' % (nm, c), lambda o, f=f, c=c: (f(o, c), St(f(st.arr.astype(float), c), st.pn, st.fn), [(o, st)])
            if nm in '+-*':
                yield '3 %s o' % nm, lambda o, f=f: (f(3, o), St(f(3, st.arr), st.pn, st.fn), [(o, st)])
                yield 'o %s o' % nm, lambda o, f=f: (f(o, o), St(f(st.arr, st.arr), st.pn, st.fn), [(o, st)])
        for nm, f in INPLACE:
            yield 'o %s= 2' % nm, lambda o, f=f: _inplace(o, St(f(st.arr.astype(float), 2), st.pn, st.fn), f, 2)
            if nm in '+-*':
                yield 'o %s= o' % nm, lambda o, f=f: _inplace(o, St(f(st.arr.astype(float), st.arr.astype(float)), st.pn, st.fn), f, o.copy())
        yield '-o', lambda o: (-o, St(-st.arr, st.pn, st.fn), [(o, st)])
        yield 'abs', lambda o: (abs(o), St(abs(st.arr), st.pn, st.fn), [(o, st)])


def _extract_op(s, rest, st):
    def f(o):
        got = o.points.extract(list(s))
        return o, st.take(rest), [(got, st.take(s))]
    return f


def _inplace(o, want, f, other):
    got = f(o, other)
    return got, want, [(o, want)] if got is o else []


def _sort_names(o, st, rev):
    n = len(st.arr)
    if any(x is None for x in st.pnames):
        try:
            o.points.sort(reverse=rev)
        except NimbleException:
            return o, st, []
        # the order of what has no name is not specified
        return o, None, []
    o.points.sort(reverse=rev)
    return o, st.take(sorted(range(n), key=lambda i: st.pnames[i], reverse=rev)), []


def _sort_key(o, st, rev):
    o.points.sort(by=lambda p: total(_plain(p.copy('python list'))), reverse=rev)
    keys = [total(_plain(st.arr[i].tolist())) for i in range(len(st.arr))]
    if len(set(keys)) < len(keys):
        order = sorted(range(len(keys)), key=lambda i: keys[i], reverse=rev)
        got = [total(_plain(p.copy('python list'))) for p in o.points]
        if got != [keys[i] for i in order]:
            return o, st.take(order), []
        return o, None, []
    return o, st.take(sorted(range(len(keys)), key=lambda i: keys[i], reverse=rev)), []


def _plain(x):
    if isinstance(x, list):
        return [_plain(v) for v in x]
    return x if isinstance(x, str) else float('nan') if x is None or x != x else float(x) + 0.0


def _repeat(o, st, r, all_):
    n = len(st.arr)
    got = o.points.repeat(r, all_)
    idx = list(range(n)) * r if not all_ else [i for i in range(n) for _ in range(r)]
    a = st.arr[idx]
    if all(x is None for x in st.pnames):
        pn = None
    else:
        pn = got.points.getNames()       # judged by D07
    return got, St(a, pn, st.fn), [(o, st)]


def _other(o, st):
    a = st.arr[:1]
    t = o.getTypeString()
    named = st.pn is not None and all(x is not None for x in st.pn)
    k = 0
    while named and 'new%d' % k in st.pn:
        k += 1
    other = St(a, ['new%d' % k] if named else None, st.fn)
    return construct(other, t), other


def _insert(o, st, at):
    obj, other = _other(o, st)
    if at is None:
        o.points.append(obj)
        at = len(st.arr)
    else:
        o.points.insert(at, obj)
    pn = st.pnames[:at] + other.pnames + st.pnames[at:]
    return o, St(np.concatenate([st.arr[:at], other.arr, st.arr[at:]]), pn, st.fn), [(obj, other)]


def _replace(o, st, i):
    obj, other = _other(o, st)
    o.points.replace(obj, i)
    a = st.arr.copy()
    a[i] = other.arr[0]
    got = o.points.getNames()
    return o, St(a, got, st.fn), [(obj, other)]


def _unique(o, st):
    keep, seen = [], set()
    for i in range(len(st.arr)):
        k = repr(_plain(st.arr[i].tolist()))
        if k not in seen:
            seen.add(k)
            keep.append(i)
    got = o.points.unique()
    want = st.take(keep)
    gn = got.points.getNames()
    return got, St(want.arr, gn if all(x is None or x in st.pnames for x in gn) else want.pn, st.fn), [(o, st)]


def _flat(o, st):
    dims = st.arr.shape
    o.flatten()
    flat = o.copy('python list')
    if not same(flat, [st.arr.ravel().tolist()]) or tuple(o.dimensions) != (1, st.arr.size):
        return o, St(st.arr.reshape(1, -1)), []
    o.unflatten(dims)
    got_p, got_f = o.points.getNames(), o.features.getNames()
    return o, St(st.arr, got_p if any(got_p) else None, got_f if any(got_f) else None), []


def _reflat(o, st):
    dims = tuple(reversed(st.arr.shape))
    o.flatten()
    o.points.setNames(None)
    o.features.setNames(None)
    o.unflatten(dims)
    return o, St(st.arr.reshape(dims)), []


def _save(o, st, ext):
    d = tempfile.mkdtemp(dir=SCRATCH)
    f = os.path.join(d, 'o' + ext)
    try:
        o.save(f)
        got = nimble.data(f, useLog=False)
    finally:
        if os.path.exists(f):
            os.unlink(f)
        os.rmdir(d)
    return got, st, [(o, st)]


def _names(o, st):
    n, m = len(st.arr), int(np.prod(st.arr.shape[1:]))
    o.points.setNames(['q%d' % (n - i) for i in range(n)])
    o.features.setNames(['g%d' % i for i in range(m)])
    return o, St(st.arr, ['q%d' % (n - i) for i in range(n)], ['g%d' % i for i in range(m)]), []


def _split(o, st):
    n = len(st.arr)
    tr, te = o.trainAndTestSets(0.5, randomOrder=False)
    k = len(tr.points)
    out = [(o, st)]
    if 0 < k < n:
        out.append((te, st.take(range(k, n))))
        return tr, st.take(range(k)), out
    return tr, None, out


def tasks(tier):
    deep = tier == 'thorough'
    out = []
    for s, t in itertools.product(range(len(STARTS)), TYPES):
        if t == 'Sparse' and STARTS[s][1] == 'text':
            continue
        for named in (False, True):
            out.append(['sequences', s, t, named, 1 if not deep and (s not in DEEP or named != (s == 0)) else 2])
        out += [['methods', s, t], ['statistics', s, t], ['equality', s, t], ['views', s, t, deep]]
    return out


def run_task(task, rec):
    np.seterr(all='ignore')
    globals()['t_' + task[0]](rec, *task[1:])
    rec.trace()


def start(s, named):
    dims, kind = STARTS[s]
    m = int(np.prod(dims[1:]))
    return St(array(dims, kind), ['p%d' % ((i * 2 + 1) % dims[0] if dims[0] % 2 else dims[0] - i) for i in range(dims[0])] if named else None, ['f%d' % i for i in range(m)] if named else None)


def t_sequences(rec, s, t, named, depth):
    st0 = start(s, named)
    for form in ('array', 'list'):
        o = construct(st0, t, form)
        for m in mismatch(o, st0):
            rec.violation('construct|%s %s %s|%s' % (form, t, STARTS[s], m[:20]), m)
    frontier = [((), st0, t)]
    done = {(st0.key(), t)}
    for level in range(depth):
        nxt = []
        for path, st, tt in frontier:
            names = [nm for nm, _ in operations(st)]
            for k, nm in enumerate(names):
                # the object is taken through the whole history
                o, cur, ok = construct(st0, t), st0, True
                for p in path:
                    f = dict(operations(cur))[p]
                    o, cur, _ = f(o)
                rec.state((s, t, named, path, nm))
                rec.step(len(path) + 1)
                key = '%s %s %s: %s' % (t, STARTS[s], 'named' if named else '', ', '.join(path + (nm,)))
                try:
                    got, want, more = dict(operations(cur))[nm](o)
                except Exception as e:
                    rec.violation('fails|' + key, '%s %s' % (type(e).__name__, e))
                    continue
                for obj, model in more + ([(got, want)] if want is not None else []):
                    try:
                        bad = mismatch(obj, model)
                    except Exception as e:
                        bad = ['observing: %s %s' % (type(e).__name__, e)]
                    if bad:
                        rec.violation('%s|%s' % (bad[0].split()[0], key), bad)
                        ok = False
                rec.outcome((nm, st.arr.shape))
                if want is None or not ok or want.arr.ndim <= 2 or want.arr.size > 48 or want.arr.shape[0] == 0:
                    continue
                h = (want.key(), got.getTypeString())
                # the same contents reached through different histories may differ inside, so the last operation counts
                h = (h, nm.split('(')[0].split()[0])
                if h not in done:
                    done.add(h)
                    nxt.append((path + (nm,), want, got.getTypeString()))
        frontier = nxt


LIMITED = {'base': ['features.copy', 'features.insert', 'T', 'stretch', 'transpose', 'merge', 'matrixMultiply', 'inverse', 'transformElements', 'calculateOnElements', 'matchingElements', 'countElements', 'countUniqueElements', 'iterateElements', 'replaceRectangle', 'groupByFeature',
                    'hashCode', 'featureView', 'matrixPower', 'solveLinearSystem', 'replaceFeatureWithBinaryFeatures', 'transformFeatureToIntegers'],
           'points': ['calculate', 'count', 'fillMatching', 'mapReduce', 'matching', 'similarities', 'splitByCollapsingFeatures', 'combineByExpandingFeatures', 'statistics', 'transform'],
           'features': ['append', 'calculate', 'copy', 'count', 'delete', 'extract', 'fillMatching', 'insert', 'matching', 'normalize', 'permute', 'repeat', 'replace', 'report', 'retain', 'similarities', 'sort', 'splitByParsing', 'statistics', 'transform', 'unique']}
ARGS = {'copy': ([0],), 'delete': ([0],), 'extract': ([0],), 'retain': ([0],), 'transform': (lambda v: v,), 'calculate': (lambda v: 1,), 'count': ('==1',), 'fillMatching': (0, nimble.match.missing), 'mapReduce': (lambda v: [], lambda a, b: (a, b)),
        'matching': (lambda v: True,), 'similarities': ('correlation',), 'statistics': ('max',), 'permute': ([1, 0],), 'sort': (0,), 'repeat': (2, True), 'transformElements': (lambda e: e,), 'calculateOnElements': (lambda e: e,),
        'matchingElements': (lambda e: True,), 'countElements': (lambda e: True,), 'groupByFeature': (0,), 'matrixPower': (2,), 'featureView': (0,), 'replaceFeatureWithBinaryFeatures': (0,), 'transformFeatureToIntegers': (0,), 'normalize': (lambda f: f,),
        'splitByCollapsingFeatures': ([0], 'a', 'b'), 'combineByExpandingFeatures': (0, 1), 'splitByParsing': (0, 1, ['a', 'b']), 'replaceRectangle': (0, 0, 0, 0, 0)}


def t_methods(rec, s, t):
    """what is refused leaves the object as it was"""
    for named in (False, True):
        st = start(s, named)
        other = construct(st, t)
        calls = []
        for where, names in LIMITED.items():
            for nm in names:
                if '.' in nm or nm in ('T', 'stretch'):
                    continue
                args = ARGS.get(nm, ())
                if nm in ('append',):
                    args = (other,)
                elif nm == 'insert':
                    args = (0, other)
                elif nm in ('merge', 'matrixMultiply', 'solveLinearSystem'):
                    args = (other,)
                elif nm == 'replace':
                    args = (other, [0])
                calls.append(('%s.%s' % (where, nm), where, nm, args))
        extra = [('T', lambda o: o.T), ('stretch', lambda o: o.stretch), ('o[0, 0]', lambda o: o[0, 0]), ('o @ o', lambda o: o @ o), ('points.copy(function)', lambda o: o.points.copy(lambda p: True)), ('points.delete(function)', lambda o: o.points.delete(lambda p: True)),
                 ('points.extract(function)', lambda o: o.points.extract(lambda p: True)), ('points.retain(function)', lambda o: o.points.retain(lambda p: False)), ('points.sort(0)', lambda o: o.points.sort(0)), ('view(features)', lambda o: o.view(featureStart=0, featureEnd=0)),
                 ("flatten('feature')", lambda o: o.flatten('feature')), ('copy(list of dict)', lambda o: o.copy('list of dict')), ('copy(dict of list)', lambda o: o.copy('dict of list')), ('copy(scipy csr)', lambda o: o.copy('scipy csr')),
                 ('copy(outputAs1D)', lambda o: o.copy('python list', outputAs1D=True)), ('copy(rowsArePoints)', lambda o: o.copy('python list', rowsArePoints=False)), ('trainAndTestSets(labels)', lambda o: o.trainAndTestSets(0.5, labels=0)),
                 ('o & o', lambda o: o & o), ('~o', lambda o: ~o), ('len', len), ('iter', lambda o: list(iter(o))), ('o[0, 0] = 1', lambda o: o.__setitem__((0, 0), 1)),
                 ('append of other dimensions', lambda o: o.points.append(nimble.data(st.arr[:, :, None] if t != 'Sparse' else st.arr[:, :, None].astype(float), returnType=t, useLog=False))),
                 ('append of two dimensions', lambda o: o.points.append(nimble.data(st.arr.reshape(st.arr.shape[0], -1), returnType=t, useLog=False)))]
        for key, where, nm, args in calls:
            extra.append((key, lambda o, where=where, nm=nm, args=args: getattr(o if where == 'base' else getattr(o, where), nm)(*args)))
        for key, f in extra:
            o = construct(st, t)
            rec.state((s, t, named, key))
            rec.step()
            full = '%s %s %s %s' % (key, t, STARTS[s], named)
            if key == 'view(features)' and len(o.features) == 1:
                continue
            try:
                f(o)
                rec.violation('accepted|' + full, '')
            except ImproperObjectAction:
                rec.rejected += 1
            except Exception as e:
                rec.violation('refused otherwise|' + full, '%s %s' % (type(e).__name__, e))
            bad = mismatch(o, st)
            if bad:
                rec.violation('refused but changed|' + full, bad)


def t_statistics(rec, s, t):
    """statistics over all the elements are those of the elements in any arrangement"""
    st = start(s, False)
    if st.arr.dtype == object:
        return
    o = construct(st, t)
    flat = nimble.data(st.arr.reshape(st.arr.shape[0], -1), returnType=t, useLog=False, treatAsMissing=None, convertToType=None)
    for nm in ('max', 'mean', 'median', 'min', 'uniqueCount', 'proportionMissing', 'proportionZero', 'mode', 'sum', 'variance', 'medianAbsoluteDeviation', 'quartiles'):
        rec.state((s, t, nm))
        rec.step()
        key = '%s %s %s' % (nm, t, STARTS[s])
        res = []
        for x in (o, flat):
            try:
                r = getattr(x, nm)()
                r = r.copy('python list') if hasattr(r, 'copy') and not isinstance(r, (list, tuple)) and hasattr(r, 'points') else r
                res.append(('value', r if not isinstance(r, np.ndarray) else r.tolist()))
            except Exception as e:
                res.append(('fails', type(e).__name__))
        if res[0][0] != res[1][0] or res[0][0] == 'value' and not same(res[0][1], res[1][1]):
            rec.violation('statistics|' + key, res)
        if tuple(o.dimensions) != st.arr.shape:
            rec.violation('changed|' + key, o.dimensions)
    rep = o.report()
    got = dict(zip(rep.features.getNames(), rep.copy('python list')[0]))
    want = {'Values': st.arr.size, 'Dimensions': ' x '.join(map(str, st.arr.shape)), 'proportionZero': float(np.mean(st.arr == 0)), 'proportionMissing': float(np.mean(st.arr != st.arr))}
    rec.step()
    if set(got) != set(want) or any(not same(got[k], want[k]) for k in want):
        rec.violation('report|%s %s' % (t, STARTS[s]), (got, want))


def t_equality(rec, s, t):
    st = start(s, False)
    a = st.arr
    o = construct(st, t)
    variants = [('same', a, True)]
    for idx in np.ndindex(*a.shape):
        b = a.copy() if a.dtype == object else a.astype(float)
        b[idx] = 'other' if a.dtype == object else 77
        variants.append(('%s differs' % (idx,), b, False))
    for dims in set(itertools.permutations(a.shape)) - {a.shape}:
        variants.append(('dimensions %s' % (dims,), a.reshape(dims), False))
    variants.append(('two dimensions', a.reshape(a.shape[0], -1), False))
    variants.append(('one more dimension', a.reshape(a.shape + (1,)), False))
    for t2 in TYPES:
        if t2 == 'Sparse' and a.dtype == object:
            continue
        for nm, b, want in variants:
            rec.state((s, t, t2, nm))
            rec.step()
            key = '%s %s %s %s' % (nm, t, t2, STARTS[s])
            p = construct(St(b), t2)
            got = (o == p, p == o, o.isIdentical(p), not o != p) if t == t2 else ()
            ap = (o.isApproximatelyEqual(p),) if a.dtype != object else ()
            if any(g != want for g in got + ap):
                rec.violation('equality|' + key, (got, ap))
            for g in (lambda: o + p, lambda: o - p):
                if a.dtype == object or 'differs' in nm or nm == 'same':
                    continue
                try:
                    g()
                    rec.violation('combined|' + key, '')
                except NimbleException:
                    rec.rejected += 1
                except Exception as e:
                    rec.violation('combined otherwise|' + key, '%s %s' % (type(e).__name__, e))


READS = [('report', lambda v, o: v.report()), ('points.report', lambda v, o: v.points.report()), ('str', lambda v, o: str(v)), ('repr', lambda v, o: repr(v)), ('max', lambda v, o: v.max()), ('sum', lambda v, o: v.sum()), ('mode', lambda v, o: v.mode()),
         ('iteration', lambda v, o: [p.copy('python list') for p in v.points]), ('equality', lambda v, o: (v == o, o == v, v.isIdentical(o))), ('approximate equality', lambda v, o: v.isApproximatelyEqual(o)), ('copy', lambda v, o: v.copy()),
         ('list', lambda v, o: v.copy('python list')), ('array', lambda v, o: v.copy('numpy array')), ('copy as List', lambda v, o: v.copy('List')), ('copy as Sparse', lambda v, o: v.copy('Sparse')), ('points.copy', lambda v, o: v.points.copy([0])),
         ('points item', lambda v, o: v.points[0]), ('unique points', lambda v, o: v.points.unique()), ('sets', lambda v, o: v.trainAndTestSets(0.5)), ('containsZero', lambda v, o: v.containsZero()), ('points.repeat', lambda v, o: v.points.repeat(2, True)),
         ('names', lambda v, o: (v.points.getNames(), v.features.getNames())), ('invariants', lambda v, o: v.checkInvariants()), ('flattened copy', lambda v, o: v.copy().flatten()), ('view', lambda v, o: v.view(0, 0).copy()), ('pointView', lambda v, o: v.pointView(0).report()),
         ('refused calculation', lambda v, o: v.points.calculate(lambda p: 1)), ('refused transform', lambda v, o: v.points.transform(lambda p: p)), ('refused item', lambda v, o: v[0, 0]), ('refused append', lambda v, o: v.points.append(o)), ('countPoints', lambda v, o: v.points.count(lambda p: True)),
         ('refused sum', lambda v, o: v + o), ('comparison', lambda v, o: v.isIdentical(v.copy())), ('hash', lambda v, o: v.hashCode())]


def t_views(rec, s, t, deep):
    """reads of a view leave the view and its source as they were"""
    dims = STARTS[s][0]
    n = dims[0]
    windows = {'all': (lambda o: o.view(), range(n)), 'first': (lambda o: o.view(0, 0), range(1)), 'last': (lambda o: o.view(n - 1, n - 1), [n - 1]),
               'tail': (lambda o: o.view(min(1, n - 1), n - 1), range(min(1, n - 1), n)), 'view of view': (lambda o: o.view(min(1, n - 1), n - 1).view(0, 0), [min(1, n - 1)]), 'point': (lambda o: o.pointView(n - 1), None)}
    for named in (False, True):
        st = start(s, named)
        for w, (f, idx) in windows.items():
            want = st.take(idx) if idx is not None else None
            for hist in itertools.product(range(len(READS)), repeat=2 if deep else 1):
                for between in (False, True) if not deep else (False,):
                    o = construct(st, t)
                    v = f(o)
                    first = v.copy('python list')
                    if between and len(hist) == 1:
                        # a read of the source before
                        try:
                            READS[hist[0]][1](o, o.copy()) if not READS[hist[0]][0].startswith('refused') else None
                        except Exception:  # noqa
                            rec.rejected += 1
                    key = '%s %s %s %s: %s' % (t, STARTS[s], named, w, ', '.join(READS[h][0] for h in hist))
                    rec.state((s, t, named, w, hist))
                    for h in hist:
                        try:
                            READS[h][1](v, o)
                        except Exception:  # noqa
                            rec.rejected += 1
                        rec.step()
                    bad = mismatch(o, st, False)
                    if not bad and tuple(v.dimensions) != (dims[1:] if idx is None and len(dims) > 2 else (len(idx or [0]),) + dims[1:]):
                        bad = ['dimensions of the view %s' % (v.dimensions,)]
                    if not bad and not same(v.copy('python list'), first):
                        bad = ['view changed']
                    if not bad and want is not None:
                        bad = mismatch(v, want, False)
                    if bad:
                        rec.violation('%s|%s' % (bad[0].split()[0], key), bad)
