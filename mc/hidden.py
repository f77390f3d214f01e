"""A digest of everything an object stores, used to recognise reached states."""
import numpy as np
from nimble.core.data import Base, BaseView

SKIPATTR = {'_base', '_source', '_points', '_features', '_name'}


def dig(x, depth=0):
    if depth > 8:
        return '...'
    if isinstance(x, Base):
        d = [type(x).__name__]
        for k in sorted(x.__dict__):
            if k in SKIPATTR:
                continue
            d.append((k, dig(x.__dict__[k], depth + 1)))
        for k in ('_points', '_features'):
            ax = x.__dict__.get(k)
            if ax is not None:
                d.append((k, tuple((a, dig(v, depth + 1)) for a, v in sorted(ax.__dict__.items()) if a not in SKIPATTR)))
        if isinstance(x, BaseView):
            d.append(('_source', dig(x._source, depth + 1)))
        return tuple(d)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('arr', x.shape, tuple((type(v).__name__, repr(v)) for v in x.ravel().tolist()))
        return ('arr', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(dig(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted((repr(k), dig(v, depth + 1)) for k, v in x.items()))
    if hasattr(x, 'tocoo'):
        c = x if hasattr(x, 'row') else x.tocoo()
        return ('sp', x.shape, dig(c.row), dig(c.col), dig(c.data))
    if type(x).__module__.startswith('pandas'):
        return ('pd', tuple(str(t) for t in getattr(x, 'dtypes', [])), repr(list(x.index)),
                repr(list(getattr(x, 'columns', []))), dig(np.asarray(x, dtype=object)))
    return (type(x).__name__, repr(x) if isinstance(x, (int, float, str, bool, type(None), np.generic)) else '')
