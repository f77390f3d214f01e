"""Calls which change the object they are called on; (name, function(object)).

Every call is valid for a numeric object with at least 2 points and 2 features
(tables in USE state whether the object changes is not asserted for trivial ones).
"""
import nimble
from nimble import match
from mc.model import Tab
from mc.obs import build


def one(o, axis):
    """A named object that can be inserted along axis."""
    n, w = o.shape
    if axis == 'points':
        return build(Tab([[9] * w], None, None), o.getTypeString())
    return build(Tab([[9]] * n, None, None), o.getTypeString())


def same(o):
    n, w = o.shape
    return build(Tab([[(i * w + j) % 3 + 20 for j in range(w)] for i in range(n)], None, None, w), o.getTypeString())


def iop(name, arg):
    def f(o):
        import operator
        getattr(operator, name)(o, arg(o) if callable(arg) else arg)
    return f


def setitem(i, j, v):
    def f(o):
        o[i, j] = v
    return f


M = [
    ('points.setNames', lambda o: o.points.setNames(['n%d' % i for i in range(o.shape[0])])),
    ('points.setNames None', lambda o: o.points.setNames(None)),
    ('points.setNames one', lambda o: o.points.setNames('nn', 0)),
    ('features.setNames', lambda o: o.features.setNames(['n%d' % i for i in range(o.shape[1])])),
    ('features.setNames None', lambda o: o.features.setNames(None)),
    ('features.setNames one', lambda o: o.features.setNames('nn', -1)),
    ('points.extract', lambda o: o.points.extract(0)),
    ('points.extract f', lambda o: o.points.extract(lambda p: True)),
    ('points.delete', lambda o: o.points.delete(0)),
    ('points.retain', lambda o: o.points.retain(-1)),
    ('features.extract', lambda o: o.features.extract([0])),
    ('features.delete', lambda o: o.features.delete(-1)),
    ('features.retain', lambda o: o.features.retain(start=0, end=0)),
    ('points.insert', lambda o: o.points.insert(0, one(o, 'points'))),
    ('points.append', lambda o: o.points.append(one(o, 'points'))),
    ('features.insert', lambda o: o.features.insert(0, one(o, 'features'))),
    ('features.append', lambda o: o.features.append(one(o, 'features'))),
    ('points.permute', lambda o: o.points.permute(list(range(o.shape[0]))[::-1])),
    ('features.permute', lambda o: o.features.permute(list(range(o.shape[1]))[::-1])),
    ('points.permute random', lambda o: o.points.permute()),
    ('points.sort', lambda o: o.points.sort(lambda p: -p[0])),
    ('points.sort by', lambda o: o.points.sort(0, reverse=True)),
    ('features.sort', lambda o: o.features.sort(lambda f: -f[0])),
    ('points.transform', lambda o: o.points.transform(lambda p: [7 for v in p])),
    ('features.transform', lambda o: o.features.transform(lambda p: [7 for v in p])),
    ('points.fillMatching', lambda o: o.points.fillMatching(77, match.anything if hasattr(match, 'anything') else (lambda v: True))),
    ('features.fillMatching', lambda o: o.features.fillMatching(77, lambda v: True)),
    ('features.normalize', lambda o: o.features.normalize(lambda f, *a: f * 0 + 5)),
    ('points.replace', lambda o: o.points.replace(one(o, 'points'), 0)),
    ('features.replace', lambda o: o.features.replace(one(o, 'features'), 0)),
    ('splitByCollapsing', lambda o: o.points.splitByCollapsingFeatures([0, 1], 'nm', 'val')),
    ('combineByExpanding', lambda o: o.points.combineByExpandingFeatures(0, 1)),
    ('splitByParsing', lambda o: o.features.splitByParsing(0, lambda v: [v, 1], ['q1', 'q2'])),
    ('transpose', lambda o: o.transpose()),
    ('transformElements', lambda o: o.transformElements(lambda v: 8)),
    ('transformElements pz', lambda o: o.transformElements(lambda v: 8, preserveZeros=True)),
    ('replaceRectangle', lambda o: o.replaceRectangle(same(o), 0, 0)),
    ('replaceRectangle const', lambda o: o.replaceRectangle(6, 0, 0, 0, 0)),
    ('flatten', lambda o: o.flatten()),
    ('unflatten', lambda o: o.unflatten((1, 1))),
    ('merge', lambda o: o.merge(o.copy(), point='left', feature='union')),
    ('replaceFeatureWithBinaryFeatures', lambda o: o.replaceFeatureWithBinaryFeatures(0)),
    ('transformFeatureToIntegers', lambda o: o.transformFeatureToIntegers(0)),
    ('setitem', setitem(0, 0, 55)),
    ('setitem neg', setitem(-1, -1, 55)),
    ('setitem row', setitem(0, slice(None), 55)),
    ('setitem col', setitem(slice(None), 0, 55)),
    ('setitem all', setitem(slice(None), slice(None), 55)),
    ('iadd', iop('iadd', 3)), ('isub', iop('isub', 3)), ('imul', iop('imul', 3)), ('itruediv', iop('itruediv', 3)),
    ('ifloordiv', iop('ifloordiv', 3)), ('imod', iop('imod', 3)), ('ipow', iop('ipow', 3)),
    ('iadd obj', iop('iadd', same)), ('imul obj', iop('imul', same)),
    ('imatmul', iop('imatmul', lambda o: build(Tab([[1] * o.shape[1]] * o.shape[1]), o.getTypeString()))),
]
