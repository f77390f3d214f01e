"""Observation of nimble objects through several independent public reads."""
import numpy as np
import nimble
from nimble.core.data import Base

from mc.model import cell, approx, Tab

TYPES = ['List', 'Matrix', 'DataFrame', 'Sparse']


class Inconsistent(Exception):
    """Two public reads of the same object disagree."""


def build(tab, rtype, **kwargs):
    """A nimble object holding the model table."""
    if tab.np == 0 or tab.nf == 0:
        src = np.empty((tab.np, tab.nf))
    else:
        src = [list(r) for r in tab.rows]
    kwargs.setdefault('useLog', False)
    return nimble.data(src, pointNames=list(tab.pn) if any(x is not None for x in tab.pn) else None,
                       featureNames=list(tab.fn) if any(x is not None for x in tab.fn) else None,
                       returnType=rtype, treatAsMissing=None, convertToType=None,
                       **kwargs)


def names(axis):
    n = axis.getNames()
    if len(n) != len(axis):
        raise Inconsistent('getNames length %d, axis length %d' % (len(n), len(axis)))
    return tuple(n)


def check_names(axis):
    """index <-> name bookkeeping is a bijection."""
    ns = names(axis)
    seen = set()
    for i, nm in enumerate(ns):
        if nm is not None:
            if not isinstance(nm, str):
                raise Inconsistent('name %r is not a string' % (nm,))
            if nm in seen:
                raise Inconsistent('duplicate name %r' % nm)
            seen.add(nm)
            if axis.getIndex(nm) != i:
                raise Inconsistent('getIndex(%r)=%r but it is at %d' % (nm, axis.getIndex(nm), i))
            if axis.getName(i) != nm:
                raise Inconsistent('getName(%d)=%r but getNames has %r' % (i, axis.getName(i), nm))
            if not axis.hasName(nm):
                raise Inconsistent('hasName(%r) is False' % nm)
    named = [x for x in ns if x is not None]
    if named and axis.getIndices(named) != [i for i, x in enumerate(ns) if x is not None]:
        raise Inconsistent('getIndices disagrees')
    for other in () if not ns else ('a', 'b', 'c', 'x', 'y', 'z', 'new', 'a_1'):
        if other not in seen and axis.hasName(other):
            raise Inconsistent('hasName(%r) but it is not in getNames' % other)
    return ns


def cells(obj, f=cell):
    p, q = obj.shape
    return tuple(tuple(f(obj[i, j]) for j in range(q)) for i in range(p))


def observe(obj, f=cell):
    """shape, cells, point names, feature names."""
    return (tuple(obj.shape), cells(obj, f), names(obj.points), names(obj.features))


def observe_full(obj, f=cell):
    """
    As observe; additionally every other way to read the object must agree.
    """
    p, q = obj.shape
    if len(obj.points) != p or len(obj.features) != q:
        raise Inconsistent('axis lengths %d, %d; shape %s'
                           % (len(obj.points), len(obj.features), obj.shape))
    if tuple(obj.dimensions[:1]) != (p,):
        raise Inconsistent('dimensions %s shape %s' % (obj.dimensions, obj.shape))
    base = cells(obj, f)
    pn = check_names(obj.points)
    fn = check_names(obj.features)
    if p and q:
        lst = obj.copy('pythonlist')
        got = tuple(tuple(f(v) for v in r) for r in lst)
        if got != base:
            raise Inconsistent('copy to list %r; cells %r' % (got, base))
        if p > 0 and q > 0:
            it = tuple(f(v) for v in obj.iterateElements(order='point'))
            flat = tuple(v for r in base for v in r)
            if it != flat:
                raise Inconsistent('iterateElements(point) %r; cells %r' % (it, flat))
            it = tuple(f(v) for v in obj.iterateElements(order='feature'))
            flat = tuple(base[i][j] for j in range(q) for i in range(p))
            if it != flat:
                raise Inconsistent('iterateElements(feature) %r; cells %r' % (it, flat))
        for i, pt in enumerate(obj.points):
            got = tuple(f(v) for v in pt)
            if got != base[i]:
                raise Inconsistent('point %d iterates %r; cells %r' % (i, got, base[i]))
        for j, ft in enumerate(obj.features):
            got = tuple(f(v) for v in ft)
            want = tuple(base[i][j] for i in range(p))
            if got != want:
                raise Inconsistent('feature %d iterates %r; cells %r' % (j, got, want))
    obj.checkInvariants()
    return ((p, q), base, pn, fn)


def canon_tab(tab, f=cell):
    return (tab.shape, tab.data(f), tuple(tab.pn), tuple(tab.fn))


def is_base(x):
    return isinstance(x, Base)


def snapshot(x, f=cell):
    """Observation of an arbitrary returned value."""
    if isinstance(x, Base):
        return ('Base', observe(x, f))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((repr(k), snapshot(v, f)) for k, v in x.items()))))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(snapshot(v, f) for v in x))
    if isinstance(x, np.ndarray):
        return ('seq', tuple(snapshot(v, f) for v in x.tolist()))
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_, type(None), str)):
        return f(x)
    return repr(type(x))
