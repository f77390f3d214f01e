"""
The reference model: a plain table (list of rows, two lists of names).

Nothing in this file uses nimble.
"""
import math


class Rejected(Exception):
    """The operation is documented to refuse these arguments."""


class Unspecified(Exception):
    """The documentation does not define a result: the case is skipped."""


def missing(v):
    return v is None or (isinstance(v, float) and v != v)


def cell(v):
    """Canonical, comparable form of one element."""
    if v is None:
        return 'NA'
    if isinstance(v, str):
        return 's:' + v
    try:
        f = float(v)
    except (TypeError, ValueError):
        return 'o:' + repr(v)
    if f != f:
        return 'NA'
    if math.isinf(f):
        return f
    return f + 0.0 if f != 0 else 0.0


def approx(v):
    """As cell, but forgiving float rounding."""
    c = cell(v)
    if isinstance(c, float) and not math.isinf(c):
        return float('%.8g' % c) if abs(c) > 1e-9 else 0.0
    return c


class Tab:
    __slots__ = ('rows', 'pn', 'fn', 'nf')

    def __init__(self, rows, pn=None, fn=None, nf=None):
        self.rows = [list(r) for r in rows]
        self.nf = len(self.rows[0]) if self.rows else (nf or 0)
        self.pn = list(pn) if pn is not None else [None] * len(self.rows)
        self.fn = list(fn) if fn is not None else [None] * self.nf
        assert len(self.pn) == len(self.rows), (self.pn, self.rows)
        assert len(self.fn) == self.nf, (self.fn, self.nf)
        for r in self.rows:
            assert len(r) == self.nf

    @property
    def np(self):
        return len(self.rows)

    @property
    def shape(self):
        return (len(self.rows), self.nf)

    def copy(self):
        return Tab(self.rows, self.pn, self.fn, self.nf)

    @property
    def T(self):
        rows = [[self.rows[i][j] for i in range(self.np)]
                for j in range(self.nf)]
        return Tab(rows, self.fn, self.pn, self.np)

    def canon(self, f=cell):
        return (self.shape, tuple(tuple(f(v) for v in r) for r in self.rows),
                tuple(self.pn), tuple(self.fn))

    def data(self, f=cell):
        return tuple(tuple(f(v) for v in r) for r in self.rows)

    def take(self, idx):
        """Rows idx, in that order."""
        return Tab([self.rows[i] for i in idx], [self.pn[i] for i in idx],
                   self.fn, self.nf)

    def takef(self, idx):
        return Tab([[r[j] for j in idx] for r in self.rows], self.pn,
                   [self.fn[j] for j in idx], len(idx))

    def __repr__(self):
        return 'Tab(%r, pn=%r, fn=%r)' % (self.rows, self.pn, self.fn)


def resolve(names, identifier):
    """Index for an int or name; Rejected when there is none."""
    n = len(names)
    if isinstance(identifier, str):
        if identifier not in names:
            raise Rejected('no name')
        return names.index(identifier)
    if isinstance(identifier, bool) or not isinstance(identifier, int):
        raise Unspecified('identifier type')
    if identifier < -n or identifier >= n:
        raise Rejected('index')
    return identifier % n


def check_unique(names):
    real = [x for x in names if x is not None]
    if len(set(real)) != len(real):
        raise Rejected('duplicate names')
