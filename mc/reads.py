"""
Catalogue of calls which must not change the object they are called on.

READS: name -> function(object) -> anything.  run(name, obj) gives a canonical,
comparable result ('raised', exception class) when the call refuses.
"""
import copy as pycopy
import numpy as np
import nimble
from nimble import match
from nimble.core.data import Base
from mc.model import Tab, approx, cell
from mc.obs import build, observe, is_base

R = {}
MODIFIES = {}


def reg(*groups):
    def deco(name, f):
        assert name not in R, name
        R[name] = (f, frozenset(groups))
    return deco


def canon(x, f=approx, seen=0):
    """Canonical form of any returned value; objects keep their type."""
    if isinstance(x, Base):
        return ('Base', x.getTypeString(), tuple(x.dimensions), observe(x, f))
    if isinstance(x, dict):
        return ('dict', tuple(sorted((repr(canon(k, f)), canon(v, f)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v, f) for v in x))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, tuple(canon(v, f) for v in x.tolist()))
    if isinstance(x, (str, bytes)):
        return 's:' + str(x)
    if isinstance(x, slice):
        return repr(x)
    if hasattr(x, 'todense') or hasattr(x, 'toarray'):
        return ('scipy', x.getformat(), canon(x.toarray(), f))
    if type(x).__module__.startswith('pandas'):
        return ('pandas', type(x).__name__, canon(np.asarray(x.index).tolist(), f),
                canon(np.asarray(x.columns).tolist(), f) if hasattr(x, 'columns') else None,
                canon(np.asarray(x, dtype=object).tolist(), f))
    if x is None or isinstance(x, (int, float, np.integer, np.floating, np.bool_)):
        return f(x)
    return 'obj ' + type(x).__name__


def notype(c):
    """The canonical form with storage types removed."""
    if isinstance(c, tuple):
        if c and c[0] == 'Base':
            return ('Base',) + tuple(notype(v) for v in c[2:])
        return tuple(notype(v) for v in c)
    return c


def run(name, obj):
    try:
        return canon(R[name][0](obj))
    except Exception as e:  # noqa
        return ('raised', type(e).__name__, str(e)[:0])


def other(obj, n=None, w=None, rtype=None, names=True, k=0):
    n = obj.shape[0] if n is None else n
    w = obj.shape[1] if w is None else w
    rows = [[(2 * i + 3 * j + k) % 4 for j in range(w)] for i in range(n)]
    return build(Tab(rows, None, None, w), rtype or obj.getTypeString())


def mid(n):
    return n // 2


def col0(obj):
    return 0


_ = reg('basic')
_('shape', lambda o: (o.shape, o.dimensions, len(o.points), len(o.features)))
_('observe', lambda o: observe(o))
_('type', lambda o: o.getTypeString())
_('bool', lambda o: bool(o) if o.shape == (1, 1) else None)
_('list-iter', lambda o: [list(p) if len(o.features) != 1 or True else p for p in o.points])
_('features-iter', lambda o: [list(f) for f in o.features])
_('base-iter', lambda o: list(o) if 1 in o.shape else None)
for order in ('point', 'feature'):
    _('iterateElements ' + order, lambda o, order=order: list(o.iterateElements(order=order)))
    _('iterateElements nonzero ' + order,
      lambda o, order=order: list(o.iterateElements(order=order, only=match.nonZero)))
_('get corner', lambda o: (o[0, 0], o[-1, -1]))
_('get row', lambda o: o[0])
_('get name row', lambda o: o[o.points.getName(0) or 0])
_('get row slice', lambda o: o[mid(o.shape[0]):, :])
_('get col', lambda o: o[:, -1])
_('get col list', lambda o: o[:, list(range(o.shape[1]))[::-1]])
_('get rows list', lambda o: o[list(range(o.shape[0]))[::-1], :])
_('get mask', lambda o: o[[i % 2 == 0 for i in range(o.shape[0])], :])
_('points[]', lambda o: (o.points[0], o.points[-1]))
_('points[list]', lambda o: o.points[list(range(o.shape[0]))[::-1]])
_('features[]', lambda o: (o.features[0], o.features[:mid(o.shape[1])]))
_('names', lambda o: (o.points.getNames(), o.features.getNames(), o.points.getName(0), o.features.getName(-1)))
_('index', lambda o: (o.points.getIndex(-1), o.features.getIndex(o.features.getNames()[-1])))
_('hasName', lambda o: [o.points.hasName(x) for x in 'abxyz'] + [o.features.hasName(x) for x in 'abxyz'])
_('getIndices', lambda o: (o.points.getIndices([x for x in o.points.getNames() if x]),
                           o.features.getIndices([x for x in o.features.getNames() if x])))
_('name/path', lambda o: (o.path, o.absolutePath, o.relativePath))
_('check', lambda o: o.checkInvariants())

_ = reg('copy')
for to in ('List', 'Matrix', 'DataFrame', 'Sparse'):
    _('copy ' + to, lambda o, to=to: o.copy(to))
for to in ('pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc', 'scipycoo',
           'pandasdataframe', 'listofdict', 'dictoflist'):
    _('copy ' + to, lambda o, to=to: o.copy(to))
_('copy pythonlist T', lambda o: o.copy('pythonlist', rowsArePoints=False))
_('copy numpyarray T', lambda o: o.copy('numpyarray', rowsArePoints=False))
_('copy listofdict T', lambda o: o.copy('listofdict', rowsArePoints=False))
_('copy 1d', lambda o: o.copy('numpyarray', outputAs1D=True))
_('copy.copy', lambda o: pycopy.copy(o))
_('deepcopy', lambda o: pycopy.deepcopy(o))
_('T', lambda o: o.T)
_('view', lambda o: o.view())
_('view win', lambda o: o.view(0, mid(o.shape[0] - 1), mid(o.shape[1]), o.shape[1] - 1))
_('view of view', lambda o: o.view(mid(o.shape[0]), None, None, None).view(0, 0, None, None))
_('pointView', lambda o: [o.pointView(i) for i in range(o.shape[0])])
_('featureView', lambda o: [o.featureView(i) for i in range(o.shape[1])])

_ = reg('elem')
_('calc inc', lambda o: o.calculateOnElements(lambda v: v + 1))
_('calc pz', lambda o: o.calculateOnElements(lambda v: v * 2, preserveZeros=True))
_('calc half', lambda o: o.calculateOnElements(lambda v: v / 4))
_('calc ij', lambda o: o.calculateOnElements(lambda v, i, j: v + 10 * i - j))
_('calc lim', lambda o: o.calculateOnElements(lambda v: v + 1, points=[-1], features=0))
_('calc dict', lambda o: o.calculateOnElements({0: 9, 1: 0}))
_('calc outtype', lambda o: o.calculateOnElements(lambda v: v, outputType='Matrix'))
_('matching zero', lambda o: o.matchingElements(lambda v: v == 0))
_('matching nonzero', lambda o: o.matchingElements(match.nonZero))
_('matching missing', lambda o: o.matchingElements(match.missing, points=[0]))
_('matching >1', lambda o: o.matchingElements('>1'))
_('matching str', lambda o: o.matchingElements('==1', features=[-1]))
_('points.matching', lambda o: o.points.matching(match.anyZero))
_('points.matching q', lambda o: o.points.matching(lambda p: p[0] > 0))
_('features.matching', lambda o: o.features.matching(match.anyMissing))
_('features.matching2', lambda o: o.features.matching(match.allNumeric))
_('countElements', lambda o: (o.countElements(lambda v: v > 0), o.countElements('==0'), o.countElements(match.nonZero)))
_('points.count', lambda o: (o.points.count(lambda p: p[0] > 0), o.points.count(match.anyZero)))
_('features.count', lambda o: (o.features.count(lambda p: p[0] > 0), o.features.count(match.anyMissing)))
_('countUnique', lambda o: (o.countUniqueElements(), o.countUniqueElements(points=[0]), o.countUniqueElements(features=[-1])))
_('containsZero', lambda o: o.containsZero())
_('points.calculate', lambda o: o.points.calculate(lambda p: [p[0], p[0]]))
_('points.calculate lim', lambda o: o.points.calculate(sum, points=[-1]))
_('features.calculate', lambda o: o.features.calculate(lambda p: p[-1]))
_('features.calculate lim', lambda o: o.features.calculate(lambda f: [x for x in f][::-1], features=[-1]))
_('mapReduce', lambda o: o.points.mapReduce(lambda p: [(0, p[0]), (1, p[-1])], lambda k, v: (k, sum(v))))
_('points.unique', lambda o: o.points.unique())
_('features.unique', lambda o: o.features.unique())
_('points.repeat', lambda o: o.points.repeat(2, True))
_('features.repeat', lambda o: o.features.repeat(2, False))
_('points.copy', lambda o: o.points.copy([-1, 0]) if o.shape[0] > 1 else o.points.copy(0))
_('points.copy q', lambda o: o.points.copy(lambda p: p[0] != 0))
_('points.copy range', lambda o: o.points.copy(start=mid(o.shape[0])))
_('features.copy', lambda o: o.features.copy([-1, 0]) if o.shape[1] > 1 else o.features.copy(0))
_('features.copy num', lambda o: o.features.copy(number=1))
_('points.copy every', lambda o: [o.points.copy(list(range(o.shape[0]))), o.points.copy(start=0), o.points.copy(number=o.shape[0])])
_('features.copy every', lambda o: [o.features.copy(list(range(o.shape[1]))), o.features.copy(start=0), o.features.copy(number=o.shape[1])])
_('points.copy where', lambda o: [o.points.copy(lambda p: True), o.points.copy(list(range(o.shape[0]))[1:])])
_('features.copy where', lambda o: [o.features.copy(lambda f: True), o.features.copy(list(range(o.shape[1]))[1:])])
_('getitem every', lambda o: [o[:, :], o[0:, :-1], o[list(range(o.shape[0])), :], o[:, list(range(o.shape[1]))], o[:, :-1], o[::1, ::-1]])
_('groupBy', lambda o: o.groupByFeature(0))
_('groupBy last', lambda o: o.groupByFeature(-1))
_('groupBy countUnique', lambda o: o.groupByFeature(0, countUniqueValueOnly=True))
_('groupBy calc', lambda o: o.groupByFeature(0, calculate='sum'))
_('groupBy two', lambda o: o.groupByFeature([0, -1]))
_('tts', lambda o: o.trainAndTestSets(0.5, randomOrder=False))
_('tts labels', lambda o: o.trainAndTestSets(0.5, labels=0, randomOrder=False))

_ = reg('compare')
_('hash', lambda o: o.hashCode())
_('identical self', lambda o: (o.isIdentical(o), o.isIdentical(o.copy()), o.isApproximatelyEqual(o.copy())))
_('identical other', lambda o: (o.isIdentical(other(o)), o.isApproximatelyEqual(other(o, rtype='List'))))
_('types compare', lambda o: [o.isApproximatelyEqual(o.copy(t)) for t in ('List', 'Sparse')])
for nm in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
    _(nm + ' scalar', lambda o, nm=nm: getattr(o, nm)(1))
    _(nm + ' obj', lambda o, nm=nm: getattr(o, nm)(other(o)))

_ = reg('arith')
for nm in ('__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__', '__mod__', '__pow__'):
    _(nm + ' scalar', lambda o, nm=nm: getattr(o, nm)(2))
    _(nm + ' obj', lambda o, nm=nm: getattr(o, nm)(other(o, k=1) + 1))
    if nm not in ('__pow__',):
        _(nm + ' self', lambda o, nm=nm: getattr(o, nm)(o))
for nm in ('__add__', '__mul__', '__sub__'):
    for rt in ('List', 'Sparse', 'DataFrame'):
        _(nm + ' ' + rt, lambda o, nm=nm, rt=rt: getattr(o, nm)(other(o, rtype=rt)))
for nm in ('__radd__', '__rsub__', '__rmul__', '__rtruediv__', '__rfloordiv__', '__rmod__', '__rpow__'):
    _(nm, lambda o, nm=nm: getattr(o, nm)(3))
for nm in ('__neg__', '__pos__', '__abs__', '__invert__'):
    _(nm, lambda o, nm=nm: getattr(o, nm)())
for nm in ('__and__', '__or__', '__xor__'):
    _(nm, lambda o, nm=nm: getattr(o.matchingElements('>0'), nm)(o.matchingElements('==1')))
    _(nm + ' direct', lambda o, nm=nm: getattr(o, nm)(o))
_('invert match', lambda o: ~o.matchingElements('>0'))
_('matmul', lambda o: o @ other(o, o.shape[1], 2))
_('matmul sparse', lambda o: o @ other(o, o.shape[1], 2, 'Sparse'))
_('rmatmul', lambda o: other(o, 2, o.shape[0]) @ o)
_('matmul self', lambda o: o.matrixMultiply(o.T))
_('matrixPower', lambda o: [o.matrixPower(k) for k in (0, 1, 2, 3)] if o.shape[0] == o.shape[1] else None)
_('inverse', lambda o: (o + other(o)).inverse() if o.shape[0] == o.shape[1] else None)
_('pinv', lambda o: o.inverse(pseudoInverse=True))
_('stretch row', lambda o: o[0, :].stretch + o)
_('stretch col', lambda o: o[:, 0].stretch * o)
_('stretch rcol', lambda o: o - o[:, -1].stretch)
_('stretch both', lambda o: o[0, :].stretch - o[:, -1].stretch)
_('stretch view', lambda o: o - o.pointView(-1).stretch)
_('stretch logic', lambda o: o[0, :].matchingElements('>0').stretch & o.matchingElements('==1'))

_ = reg('stats')
for nm in ('max', 'mean', 'median', 'min', 'mode', 'sum', 'variance', 'uniqueCount', 'proportionZero',
           'proportionMissing', 'medianAbsoluteDeviation', 'quartiles'):
    for ax in ('points', 'features'):
        _('%s.%s' % (ax, nm), lambda o, nm=nm, ax=ax: getattr(getattr(o, ax), nm)())
    if nm not in ('quartiles',):
        _('.' + nm, lambda o, nm=nm: getattr(o, nm)())
for ax in ('points', 'features'):
    _(ax + '.std', lambda o, ax=ax: (getattr(o, ax).standardDeviation(), getattr(o, ax).populationStandardDeviation()))
    for sim in ('correlation', 'covariance', 'dot product', 'sample covariance', 'population covariance'):
        _('%s.sim %s' % (ax, sim), lambda o, ax=ax, sim=sim: getattr(o, ax).similarities(sim))
_('features.mean by', lambda o: o.features.mean(groupByFeature=0))
_('features.sum by', lambda o: o.features.sum(groupByFeature=-1))
_('features.statistics', lambda o: o.features.statistics('max'))
_('points.statistics', lambda o: o.points.statistics('mean'))
_('report', lambda o: o.report())
_('features.report', lambda o: o.features.report())
from nimble import calculate as nc  # noqa
_('calculate stats', lambda o: [nc.mean(f) for f in o.features] + [nc.minimum(p) for p in o.points])
_('calculate uniq', lambda o: [nc.uniqueCount(f) for f in o.features])
_('calculate dists', lambda o: [nc.residuals(o, other(o, o.shape[0], 1)) if o.shape[0] > o.shape[1] else None])
_('calculate err', lambda o: nc.meanAbsoluteError(o[:, 0].copy(), o[:, -1].copy()))

_ = reg('shape')
_('flatten copy', lambda o: flat(o, 'point'))
_('flatten copy f', lambda o: flat(o, 'feature'))
_('merge', lambda o: merged(o))
_('merge on', lambda o: merged(o, True))


def flat(o, order):
    c = o.copy()
    c.flatten(order)
    return c


def merged(o, on=False):
    c = o.copy()
    c.points.setNames(None)
    c.features.setNames(['k'] + ['m%d' % i for i in range(o.shape[1] - 1)])
    d = o.copy()
    d.points.setNames(None)
    d.features.setNames(['k'] + ['n%d' % i for i in range(o.shape[1] - 1)])
    if on:
        c = c.points.unique()
        c.merge(d, point='union', feature='union', onFeature='k')
    else:
        c.features.delete(0)
        c.merge(d, point='union', feature='union', force=True)
    return c


_ = reg('arg')
# the object as the argument of a call on another object
_('append to other', lambda o: tolast(o, lambda c: c.points.append(o)))
_('append features to other', lambda o: tolast(o, lambda c: c.features.append(o)))
_('insert to other', lambda o: tolast(o, lambda c: c.points.insert(0, o)))
_('insert features to other', lambda o: tolast(o, lambda c: c.features.insert(0, o)))
_('iadd', lambda o: tolast(o, lambda c: c.__iadd__(o)))
_('imul', lambda o: tolast(o, lambda c: c.__imul__(o)))
_('replaceRectangle other', lambda o: tolast(o, lambda c: c.replaceRectangle(o, 0, 0)))
_('points.replace', lambda o: tolast(o, lambda c: c.points.replace(o)))
_('features.replace', lambda o: tolast(o, lambda c: c.features.replace(o)))
_('other match', lambda o: tolast(o, lambda c: c.points.fillMatching(7, o == 0)))
_('nimble.data of it', lambda o: nimble.data(o))
_('nimble.data of it as', lambda o: nimble.data(o, returnType='Matrix' if o.getTypeString() != 'Matrix' else 'List'))
_('normalize apply', lambda o: normal(o))


def tolast(o, f):
    c = other(o)
    r = f(c)
    return c if r is None else (c, r)


def normal(o):
    c = other(o)
    d = o.copy()
    c.features.normalize(lambda f, g=None: f, d) if False else c.features.normalize(nimble.calculate.meanNormalize, o.copy())
    return c


_ = reg('text')
_('toString', lambda o: o.toString())
_('str', lambda o: str(o))
_('repr', lambda o: repr(o))
_('toString lim', lambda o: o.toString(lineLimit=5, lineWidthLimit=20))
_('toString opts', lambda o: o.toString(includePointNames=False, includeFeatureNames=False, sigDigits=1))
_('toString pts', lambda o: o.toString(points=[0, 1], features=[0]))


def names(*groups):
    return [n for n, (f, g) in R.items() if not groups or g & set(groups)]
