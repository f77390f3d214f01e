"""
The same observable table reached through different hidden states, and views.

make(tab, rtype, variant) returns an object whose observable content is tab.
MUTABLE variants are ordinary objects; VIEWS are read-only views onto a larger
object.
"""
from mc.model import Tab
from mc.obs import build

MUTABLE = ['fresh', 'transposed', 'preversed', 'freversed', 'extracted',
           'viewcopy', 'fread', 'pread', 'zeroed', 'appended', 'sorted', 'named', 'renamed']
VIEWS = ['view', 'view_t', 'pview', 'fview', 'fullview']


def grow(tab, fillpn=True):
    """tab surrounded by extra rows and columns -> (bigger tab, offset)."""
    pn = None
    if any(x is not None for x in tab.pn):
        pn = ['zp0'] + tab.pn + ['zp1']
    fn = None
    if any(x is not None for x in tab.fn):
        fn = ['zf0'] + tab.fn + ['zf1']
    w = tab.nf + 2
    top = ([0, 8, 0, 6, 9, 5, 0, 4] * 3)[:w]
    bot = ([7, 0, 5, 0, 3, 0, 2, 1] * 3)[:w]
    rows = [top] + [[0] + list(r) + [8] for r in tab.rows] + [bot]
    return Tab(rows, pn, fn, w)


def make(tab, rtype, variant):
    n, w = tab.shape
    if variant == 'fresh':
        return build(tab, rtype)
    if variant == 'transposed':
        o = build(tab.T, rtype)
        o.transpose(useLog=False)
        return o
    if variant == 'preversed':
        idx = list(range(n))[::-1]
        o = build(tab.take(idx), rtype)
        if n:
            o.points.permute(idx, useLog=False)
        return o
    if variant == 'freversed':
        idx = list(range(w))[::-1]
        o = build(tab.takef(idx), rtype)
        if w:
            o.features.permute(idx, useLog=False)
        return o
    if variant == 'sorted':
        # reversed and then ordered by sort on a temporary key feature
        idx = list(range(n))[::-1]
        rev = tab.take(idx)
        fn = tab.fn + (['zkey'] if any(x is not None for x in tab.fn) else [None])
        o = build(Tab([r + [k] for r, k in zip(rev.rows, idx)], rev.pn, fn, w + 1), rtype)
        if n:
            o.points.sort(w, useLog=False)
        o.features.delete(w, useLog=False)
        return o
    if variant == 'extracted':
        o = build(grow(tab), rtype)
        o = o.points.extract(start=1, end=n, useLog=False) if n else o
        o.features.extract([0, w + 1], useLog=False)
        return o
    if variant == 'viewcopy':
        o = build(grow(tab), rtype)
        return o.view(1, n, 1, w).copy()
    if variant == 'fread':
        o = build(tab, rtype)
        list(o.iterateElements(order='feature'))
        return o
    if variant == 'pread':
        o = build(tab, rtype)
        list(o.iterateElements(order='feature'))
        for p in o.points:
            list(p)
        return o
    if variant == 'named':
        o = build(tab, rtype)
        o.points.getNames(), o.features.getNames()
        return o
    if variant == 'renamed':
        # every name was set and, where the table has none, removed again
        o = build(Tab(tab.rows, ['zp%d' % i for i in range(n)], ['zf%d' % i for i in range(w)], w), rtype)
        for ax, ns in ((o.points, tab.pn), (o.features, tab.fn)):
            for i, x in enumerate(ns):
                ax.setNames(x, i, useLog=False)
        return o
    if variant == 'zeroed':
        rows = [[7 if (not isinstance(v, str) and v == 0) else v for v in r] for r in tab.rows]
        o = build(Tab(rows, tab.pn, tab.fn, w), rtype)
        for i in range(n):
            for j in range(w):
                if not isinstance(tab.rows[i][j], str) and tab.rows[i][j] == 0:
                    o[i, j] = 0
        return o
    if variant == 'appended':
        o = build(tab.take([0]), rtype)
        for i in range(1, n):
            o.points.append(build(tab.take([i]), rtype), useLog=False)
        return o
    if variant == 'fullview':
        return build(tab, rtype).view()
    if variant == 'view':
        return build(grow(tab), rtype).view(1, n, 1, w)
    if variant == 'view_t':
        o = build(grow(tab).T, rtype)
        o.transpose(useLog=False)
        return o.view(1, n, 1, w)
    if variant == 'pview':
        assert n == 1
        g = grow(tab)
        return build(g.takef(range(1, w + 1)), rtype).pointView(1)
    if variant == 'fview':
        assert w == 1
        g = grow(tab)
        return build(g.take(range(1, n + 1)), rtype).featureView(1)
    raise AssertionError(variant)


def applicable(tab, rtype, variant):
    n, w = tab.shape
    if variant == 'pview':
        return n == 1 and w > 0
    if variant == 'fview':
        return w == 1 and n > 0
    if variant in ('appended', 'extracted', 'viewcopy', 'view', 'view_t', 'zeroed', 'sorted'):
        return n > 0 and w > 0
    return True
