"""In-place changes to objects and to raw containers, and calls with arguments."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
import nimble
from nimble.core.data import Base, BaseView
from mc.model import Tab
from mc.obs import build
from mc import mutators

MUT = dict(mutators.M)
# enough to reach every stored field in place: values, order, names, sort state, size
SHORT = ['points.setNames', 'points.setNames one', 'features.setNames', 'features.setNames one', 'points.setNames None',
         'points.extract', 'features.delete', 'points.insert', 'features.append', 'points.permute', 'features.permute',
         'points.sort by', 'features.sort', 'points.transform', 'features.transform', 'points.fillMatching', 'features.normalize',
         'transpose', 'transformElements', 'transformElements pz', 'replaceRectangle', 'replaceRectangle const', 'flatten',
         'setitem', 'setitem neg', 'setitem row', 'setitem all', 'iadd', 'imul', 'isub', 'iadd obj', 'imul obj',
         'features.replace', 'points.replace']


def spoil(x, seen=None):
    """Overwrite every mutable raw container reachable from x, in place."""
    if x is None or isinstance(x, BaseView):
        return
    if isinstance(x, Base):
        # a nimble object as the source: change it through its own operations
        for m in ('setitem', 'features.setNames one', 'points.permute', 'imul', 'features.delete'):
            try:
                MUT[m](x)
            except Exception:  # noqa
                pass
    elif isinstance(x, dict):
        # names given to indices: the indices stay, so that only the names change
        given = bool(x) and all(isinstance(k, str) and isinstance(v, int) for k, v in x.items())
        for k in list(x):
            spoil(x[k])
            if given:
                x['spoiled ' + k] = x.pop(k)
            else:
                x[k] = 'spoiled'
        if not given:
            x['spoiled'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        for i in range(len(x)):
            x[i] = 'spoiled'
        x.append('spoiled')
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel().tolist():
                spoil(v)
        if x.flags.writeable:
            x[...] = 77 if x.dtype.kind not in 'US' else 's'
    elif sp.issparse(x):
        for a in ('data', 'row', 'col', 'indices', 'indptr'):
            v = getattr(x, a, None)
            if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
                v[...] = 77 if a == 'data' else 0
    elif isinstance(x, (pd.DataFrame, pd.Series)):
        try:
            v = x.values
            if v.flags.writeable:
                v[...] = 77
        except Exception:  # noqa
            pass
        if x.size:
            try:
                x.iloc[...] = 77
            except Exception:  # noqa
                pass


def bases(x, out=None):
    """Every data object in a returned value, views excluded."""
    out = [] if out is None else out
    if isinstance(x, BaseView):
        return out
    if isinstance(x, Base):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            bases(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            bases(v, out)
    return out


def has_raw(x):
    if isinstance(x, (list, dict, np.ndarray, pd.DataFrame, pd.Series)) or sp.issparse(x):
        return True
    return isinstance(x, tuple) and any(has_raw(v) for v in x)


def has_view(x):
    if isinstance(x, BaseView):
        return True
    if isinstance(x, dict):
        return any(has_view(v) for v in x.values())
    return isinstance(x, (list, tuple)) and any(has_view(v) for v in x)


def rows_like(o, n=None, w=None, names=False):
    n = o.shape[0] if n is None else n
    w = o.shape[1] if w is None else w
    return Tab([[(i + 2 * j) % 4 for j in range(w)] for i in range(n)],
               ['ap%d' % i for i in range(n)] if names else None, ['af%d' % j for j in range(w)] if names else None, w)


# -------------------------------------------------- calls that take another object
# name -> (make argument, call(obj, arg))
def arg(n=None, w=None, names=False):
    def f(o, rtype):
        nn = n(o) if callable(n) else n
        ww = w(o) if callable(w) else w
        return build(rows_like(o, nn, ww, names), rtype)
    return f


def keyed(o, rtype):
    t = rows_like(o)
    return build(Tab([[i] + r[1:] for i, r in enumerate(t.rows)], None, ['k'] + ['m%d' % j for j in range(o.shape[1] - 1)]), rtype)


def do_merge(o, a):
    o.points.setNames(None, useLog=False)
    o.features.setNames(['k'] + ['z%d' % j for j in range(o.shape[1] - 1)], useLog=False)
    o.merge(a, point='union', feature='union', onFeature='k', useLog=False)


def do_merge_names(o, a):
    o.features.setNames(['z%d' % j for j in range(o.shape[1])], useLog=False)
    o.points.setNames(['q%d' % j for j in range(o.shape[0])], useLog=False)
    o.merge(a, point='union', feature='union', useLog=False)


def setrow(o, a):
    o[0, :] = a


def setblock(o, a):
    o[:, :] = a


def ip(name):
    import operator

    def f(o, a):
        getattr(operator, name)(o, a)
    return f


OBJARG = {
    'points.append': (arg(), lambda o, a: o.points.append(a, useLog=False)),
    'points.insert': (arg(names=False), lambda o, a: o.points.insert(0, a, useLog=False)),
    'points.insert1': (arg(n=1), lambda o, a: o.points.insert(1, a, useLog=False)),
    'features.append': (arg(), lambda o, a: o.features.append(a, useLog=False)),
    'features.insert': (arg(), lambda o, a: o.features.insert(0, a, useLog=False)),
    'features.append1': (arg(w=1), lambda o, a: o.features.append(a, useLog=False)),
    'replaceRectangle': (arg(), lambda o, a: o.replaceRectangle(a, 0, 0, useLog=False)),
    'replaceRectangle part': (arg(1, 1), lambda o, a: o.replaceRectangle(a, 0, 0, 0, 0, useLog=False)),
    'points.replace': (arg(), lambda o, a: o.points.replace(a, useLog=False)),
    'points.replace1': (arg(n=1), lambda o, a: o.points.replace(a, -1, useLog=False)),
    'features.replace': (arg(), lambda o, a: o.features.replace(a, useLog=False)),
    'features.replace1': (arg(w=1), lambda o, a: o.features.replace(a, 0, useLog=False)),
    'merge key': (keyed, do_merge),
    'merge names': (arg(names=True), do_merge_names),
    'iadd': (arg(), ip('iadd')), 'imul': (arg(), ip('imul')), 'isub': (arg(), ip('isub')), 'ipow': (arg(), ip('ipow')),
    'imatmul': (arg(n=lambda o: o.shape[1], w=lambda o: o.shape[1]), ip('imatmul')),
    'fillMatching obj': (arg(), lambda o, a: o.points.fillMatching(5, a == 0, useLog=False)),
    'transform': (arg(w=1), lambda o, a: o.features.transform(lambda f: a, features=0, useLog=False)),
    'transform points': (arg(n=1), lambda o, a: o.points.transform(lambda f: a, points=0, useLog=False)),
}

# -------------------------------------------------- calls that take raw containers
RAWARG = {
    'points.setNames list': (lambda o: ['L%d' % i for i in range(o.shape[0])], lambda o, a: o.points.setNames(a, useLog=False)),
    'points.setNames dict': (lambda o: {'D%d' % i: i for i in range(o.shape[0])}, lambda o, a: o.points.setNames(a, useLog=False)),
    'features.setNames list': (lambda o: ['L%d' % i for i in range(o.shape[1])], lambda o, a: o.features.setNames(a, useLog=False)),
    'features.setNames dict': (lambda o: {'D%d' % i: i for i in range(o.shape[1])}, lambda o, a: o.features.setNames(a, useLog=False)),
    'points.setNames some': (lambda o: ['L0', None] + [None] * (o.shape[0] - 2) if o.shape[0] > 1 else ['L0'],
                             lambda o, a: o.points.setNames(a, useLog=False)),
    'features.setNames old': (lambda o: [['N0'], [0]], lambda o, a: o.features.setNames(a[0], a[1], useLog=False)),
    'points.permute': (lambda o: list(range(o.shape[0]))[::-1], lambda o, a: o.points.permute(a, useLog=False)),
    'features.permute': (lambda o: list(range(o.shape[1]))[::-1], lambda o, a: o.features.permute(a, useLog=False)),
    'points.extract': (lambda o: [0], lambda o, a: o.points.extract(a, useLog=False)),
    'features.delete': (lambda o: [0], lambda o, a: o.features.delete(a, useLog=False)),
    'points.retain': (lambda o: list(range(o.shape[0]))[::-1], lambda o, a: o.points.retain(a, useLog=False)),
    'features.sort': (lambda o: [0], lambda o, a: o.features.sort(a, useLog=False)),
    'points.sort': (lambda o: [0, 1] if o.shape[1] > 1 else [0], lambda o, a: o.points.sort(a, useLog=False)),
    'transformElements dict': (lambda o: {0: 5, 1: 6}, lambda o, a: o.transformElements(a, useLog=False)),
    'transformElements lims': (lambda o: [[0], [0]], lambda o, a: o.transformElements(lambda v: 3, a[0], a[1], useLog=False)),
    'fillMatching list': (lambda o: [0, 1], lambda o, a: o.points.fillMatching(4, a, useLog=False)),
    'features.fillMatching limit': (lambda o: [[0], [0]], lambda o, a: o.features.fillMatching(4, a[0], a[1], useLog=False)),
    'points.transform limit': (lambda o: [0], lambda o, a: o.points.transform(lambda p: [3 for _ in p], a, useLog=False)),
    'points.transform ret': (lambda o: [9] * o.shape[1], lambda o, a: o.points.transform(lambda p: a, 0, useLog=False)),
    'features.transform ret': (lambda o: [9] * o.shape[0], lambda o, a: o.features.transform(lambda p: a, 0, useLog=False)),
    'features.transform array': (lambda o: np.array([9] * o.shape[0]), lambda o, a: o.features.transform(lambda p: a, 0, useLog=False)),
    'setitem row': (lambda o: [8] * o.shape[1], setrow),
    'points.replace list': (lambda o: [8] * o.shape[1], lambda o, a: o.points.replace(a, 0, useLog=False)),
    'points.replace array': (lambda o: np.array([8.0] * o.shape[1]), lambda o, a: o.points.replace(a, 0, useLog=False)),
    'features.replace list': (lambda o: [8] * o.shape[0], lambda o, a: o.features.replace(a, 0, useLog=False)),
    'points.append list': (lambda o: [8] * o.shape[1], lambda o, a: o.points.append(a, useLog=False)),
    'features.insert array': (lambda o: np.array([[8.0]] * o.shape[0]), lambda o, a: o.features.insert(0, a, useLog=False)),
    'splitByCollapsing': (lambda o: [0, 1], lambda o, a: o.points.splitByCollapsingFeatures(a, 'nm', 'val', useLog=False)),
    'splitByParsing': (lambda o: ['q1', 'q2'], lambda o, a: o.features.splitByParsing(0, lambda v: [v, 1], a, useLog=False)),
    'unflatten': (lambda o: [o.shape[0], o.shape[1]], lambda o, a: (o.flatten(useLog=False), o.unflatten(a, useLog=False))),
    'points.copy': (lambda o: [0], lambda o, a: o.points.copy(a, useLog=False)),
    'getitem': (lambda o: [[0], [0]], lambda o, a: o[a[0], a[1]]),
    'calculate': (lambda o: [0], lambda o, a: o.points.calculate(sum, a, useLog=False)),
    'groupBy': (lambda o: [0], lambda o, a: o.groupByFeature(a, useLog=False)),
    'unique limits': (lambda o: [0], lambda o, a: o.countUniqueElements(a)),
    'tts': (lambda o: [0], lambda o, a: o.trainAndTestSets(0.5, labels=a, useLog=False)),
}


# ----------------------------------------------------------------- raw data
def sources():
    r = [[1, 0, 2], [0, 3, 4]]
    f = [[1.0, 0.0, 2.5], [0.0, 3.0, 4.0]]
    return {
        'lists': lambda: [list(x) for x in r],
        'lists float': lambda: [list(x) for x in f],
        'lists str': lambda: [['a', 1], ['b', 2]],
        'lists str2': lambda: [['1', '2'], ['3', '4']],
        'tuple of lists': lambda: tuple(list(x) for x in r),
        'list': lambda: [1, 2, 3],
        'dict': lambda: {'x': [1, 0], 'y': [0, 3]},
        'dict arrays': lambda: {'x': np.array([1, 0]), 'y': np.array([0, 3])},
        'list of dict': lambda: [{'x': 1, 'y': 2}, {'x': 0, 'y': 3}],
        'array': lambda: np.array(r),
        'array F': lambda: np.array(f, order='F'),
        'array float': lambda: np.array(f),
        'array object': lambda: np.array([['a', 1], ['b', 2]], dtype=object),
        'array bool': lambda: np.array([[True, False], [False, True]]),
        'array 1d': lambda: np.array([1.0, 2.0, 3.0]),
        'array 3d': lambda: np.arange(8.0).reshape(2, 2, 2),
        'array 3d one': lambda: np.arange(4.0).reshape(1, 2, 2),
        'array 3d mid': lambda: np.arange(4.0).reshape(2, 1, 2),
        'array 3d last': lambda: np.arange(4.0).reshape(2, 2, 1),
        'array column': lambda: np.arange(3.0).reshape(3, 1),
        'array row': lambda: np.arange(3.0).reshape(1, 3),
        'object': lambda: nimble.data([[1, 0, 2], [0, 3, 4]], useLog=False),
        'object view': lambda: nimble.data([[1, 0, 2], [0, 3, 4]], useLog=False).view(0, 0),
        'tuple of arrays': lambda: tuple(np.array(x) for x in f),
        'lists 3d': lambda: np.arange(8.0).reshape(2, 2, 2).tolist(),
        'matrix': lambda: np.matrix(f),
        'list of arrays': lambda: [np.array(x) for x in f],
        'frame': lambda: pd.DataFrame(f, columns=['x', 'y', 'z'], index=['a', 'b']),
        'frame mixed': lambda: pd.DataFrame({'x': [1, 2], 'y': ['a', 'b'], 'z': [0.5, 0.0]}),
        'series': lambda: pd.Series([1.0, 2.0], index=['a', 'b']),
        'coo': lambda: sp.coo_matrix(np.array(f)),
        'csr': lambda: sp.csr_matrix(np.array(f)),
        'csc': lambda: sp.csc_matrix(np.array(f)),
        'coo dup': lambda: sp.coo_matrix(([1.0, 2.0, 3.0], ([0, 0, 1], [0, 0, 2])), shape=(2, 3)),
    }
