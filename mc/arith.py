"""Arithmetic, logical and matrix operations: model and real call."""
import math
import operator
from mc.model import Tab, Rejected, Unspecified, missing
from mc.obs import build, is_base
from mc.ops import REG, PURE_OPS, WITH_EXTRA, tab_of, isnum
from mc.variants import make

NAN = float('nan')
ARITH = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']


def scalar_op(op, a, b):
    if op == 'pow':
        if missing(a) or missing(b):
            raise Unspecified()
        if a == 0 and b < 0:
            raise Rejected('zero to a negative power')
        if a < 0 and b != int(b):
            raise Rejected('complex')
        return float(a) ** float(b)
    if missing(a) or missing(b):
        return NAN
    if op in ('truediv', 'floordiv', 'mod') and b == 0:
        raise Rejected('zero division')
    return getattr(operator, op)(a, b)


def consistent(l, r):
    """names of the same axis do not contradict each other"""
    if all(x is None for x in l) or all(x is None for x in r):
        return True
    for a, b in ((l, r), (r, l)):
        for x, y in zip(a, b):
            if x is not None:
                if y is not None:
                    if x != y:
                        return False
                elif x in b:
                    return False
    return True


def merged(l, r):
    return [a if a is not None else b for a, b in zip(l, r)]


def disjoint(l, r):
    return not ({x for x in l if x is not None} & {x for x in r if x is not None})


def joined_names(t, o, inplace):
    pe, fe = consistent(t.pn, o.pn), consistent(t.fn, o.fn)
    if inplace and not (pe and fe):
        raise Rejected('names')
    if not pe and not fe:
        raise Rejected('names')
    pn, fn = merged(t.pn, o.pn), merged(t.fn, o.fn)
    if not pe:
        if not disjoint(t.pn, o.pn):
            raise Rejected('names')
        pn = None
    if not fe:
        if not disjoint(t.fn, o.fn):
            raise Rejected('names')
        fn = None
    return pn, fn


def strings(t):
    return any(isinstance(v, str) for r in t.rows for v in r)


def bools(t):
    return any(isinstance(v, bool) for r in t.rows for v in r)


def m_bin(t, op, form, other):
    inplace = form == 'i'
    if isinstance(other, Tab):
        if t.shape != other.shape:
            raise Rejected('shape')
        if not t.np or not t.nf:
            raise Rejected('empty')
        if strings(t) or strings(other):
            raise Rejected('numeric')
        if bools(t) or bools(other):
            raise Unspecified()
        pn, fn = joined_names(t, other, inplace)
        if op in ('truediv', 'floordiv', 'mod') and any(v == 0 for r in other.rows for v in r):
            raise Rejected('zero division')
        rows = [[scalar_op(op, a, b) for a, b in zip(r, s)] for r, s in zip(t.rows, other.rows)]
        ret = Tab(rows, pn, fn, t.nf)
    else:
        if strings(t) or isinstance(other, str):
            raise Rejected('numeric')
        if not t.np or not t.nf or bools(t):
            raise Unspecified()
        if op in ('truediv', 'floordiv', 'mod'):
            if other == 0 if form != 'r' else any(v == 0 for r in t.rows for v in r):
                raise Rejected('zero division')
        rows = [[scalar_op(op, other, v) if form == 'r' else scalar_op(op, v, other) for v in r] for r in t.rows]
        ret = Tab(rows, t.pn, t.fn, t.nf)
    if inplace:
        return ret, None
    return t, ret


def operand(o, spec, extra):
    if not isinstance(spec, dict):
        return spec
    tt = tab_of(spec)
    other = make(tt, spec.get('type') or o.getTypeString(), spec.get('variant', 'fresh'))
    if extra is not None:
        extra.append((other, tt))
    return other


def r_bin(o, op, form, other, extra=None):
    other = operand(o, other, extra)
    f = getattr(operator, op)
    if form == 'r':
        return f(other, o)
    return f(o, other)


def r_ibin(o, op, form, other, extra=None):
    other = operand(o, other, extra)
    ret = getattr(operator, {'and': 'iand', 'or': 'ior'}.get(op, 'i' + op))(o, other)
    assert ret is o, 'the in place operation returned another object'
    return None


REG['bin'] = (m_bin, r_bin)
REG['ibin'] = (m_bin, r_ibin)
PURE_OPS.add('bin')
WITH_EXTRA |= {'bin', 'ibin'}


# ------------------------------------------------------------------- unary
def m_un(t, op):
    if strings(t) or bools(t) or not t.np or not t.nf:
        raise Unspecified()
    f = {'neg': lambda v: -v, 'pos': lambda v: v, 'abs': abs}[op]
    return t, Tab([[f(v) for v in r] for r in t.rows], t.pn, t.fn, t.nf)


REG['un'] = (m_un, lambda o, op: getattr(operator, op)(o))
PURE_OPS.add('un')


# ------------------------------------------------------------------ matmul
def dot(t, o, keepnames=True):
    rows = []
    for r in t.rows:
        row = []
        for j in range(o.nf):
            s = 0
            for k in range(t.nf):
                a, b = r[k], o.rows[k][j]
                s = NAN if missing(a) or missing(b) else s + a * b
            row.append(s)
        rows.append(row)
    return Tab(rows, t.pn, o.fn, o.nf)


def m_mm(t, other, form):
    if not isinstance(other, Tab):
        raise Rejected('operand')
    l, r = (other, t) if form == 'r' else (t, other)
    if not l.np or not l.nf or not r.np or not r.nf:
        raise Rejected('empty')
    if strings(l) or strings(r):
        raise Rejected('numeric')
    if l.nf != r.np:
        raise Rejected('shape')
    if any(missing(v) for x in (l, r) for row in x.rows for v in row) or bools(l) or bools(r):
        raise Unspecified()
    if not consistent(l.fn, r.pn):
        raise Rejected('names')
    ret = dot(l, r)
    return (ret, None) if form == 'i' else (t, ret)


def r_mm(o, other, form, extra=None):
    other = operand(o, other, extra)
    if form == 'r':
        return other @ o if is_base(other) else o.__rmatmul__(other)
    if form == 'm':
        return o.matrixMultiply(other)
    return o @ other


def r_imm(o, other, form, extra=None):
    other = operand(o, other, extra)
    ret = operator.imatmul(o, other)
    assert ret is o, 'the in place operation returned another object'
    return None


REG['mm'] = (m_mm, r_mm)
REG['imm'] = (m_mm, r_imm)
PURE_OPS.add('mm')
WITH_EXTRA |= {'mm', 'imm'}


def m_mp(t, power):
    if not isinstance(power, int):
        raise Rejected('integer')
    if t.np != t.nf:
        raise Rejected('square')
    if strings(t) or bools(t) or not t.np or any(missing(v) for r in t.rows for v in r):
        raise Unspecified()
    if power < 0:
        raise Unspecified()
    ident = Tab([[1 if i == j else 0 for j in range(t.np)] for i in range(t.np)])
    ret = ident
    for _ in range(power):
        ret = dot(ret, Tab(t.rows))
    return t, Tab(ret.rows, t.pn, t.fn, t.nf)


REG['mp'] = (m_mp, lambda o, power: o.matrixPower(power))
PURE_OPS.add('mp')


# ----------------------------------------------------------------- logical
def truth(t):
    for r in t.rows:
        for v in r:
            if not isnum(v) or v not in (0, 1):
                raise Rejected('logical')
    return [[bool(v) for v in r] for r in t.rows]


def m_log(t, op, form, other):
    if not isinstance(other, Tab):
        raise Rejected('operand')
    if t.shape != other.shape:
        raise Rejected('shape')
    if not t.np or not t.nf:
        raise Rejected('empty')
    a, b = truth(t), truth(other)
    pn, fn = joined_names(t, other, False)
    f = {'and_': operator.and_, 'or_': operator.or_, 'xor': operator.xor}[op]
    ret = Tab([[1 if f(x, y) else 0 for x, y in zip(r, s)] for r, s in zip(a, b)], pn, fn, t.nf)
    return t, ret


REG['log'] = (m_log, r_bin)
PURE_OPS.add('log')
WITH_EXTRA.add('log')


def m_inv(t):
    if not t.np or not t.nf:
        raise Unspecified()
    return t, Tab([[0 if v else 1 for v in r] for r in truth(t)], t.pn, t.fn, t.nf)


REG['inv'] = (m_inv, lambda o: ~o)
PURE_OPS.add('inv')


# ----------------------------------------------------------------- stretch
def out_names(s, o, snum, onum, n, ostretch):
    """names of one axis of the result; s belongs to the stretched operand"""
    sd, od = all(x is None for x in s), all(x is None for x in o)
    if sd and od:
        return None
    if list(s) == list(o):
        return s
    if sd:
        if ostretch and onum != n:
            return [o[0] + '_' + str(i + 1) for i in range(n)]
        return o
    if od:
        if snum > 1 or n == 1:
            return s
        return [s[0] + '_' + str(i + 1) for i in range(n)]
    if len(s) == len(o):
        return merged(s, o)
    return None


def m_st(t, op, form, other):
    """form: 'os' obj op other.stretch, 'so' obj.stretch op other, 'ss' both"""
    s, o = (other, t) if form == 'os' else (t, other)
    for x in ((s, o) if form == 'ss' else (s,)):
        if x.np != 1 and x.nf != 1 or not x.np or not x.nf:
            raise Rejected('one dimensional')
    if not o.np or not o.nf:
        raise Unspecified()
    if strings(s) or strings(o):
        raise Rejected('numeric')
    logical = op in ('and_', 'or_', 'xor')
    if not logical and (bools(s) or bools(o)):
        raise Unspecified()
    if form == 'ss':
        if not (s.np == 1 and o.nf == 1 or s.nf == 1 and o.np == 1):
            raise Rejected('fit')
        n, w = max(s.np, o.np), max(s.nf, o.nf)
    else:
        if s.shape == (1, 1):
            if 1 not in o.shape:
                raise Rejected('fit')
            axis = 'p' if o.np > 1 else 'f'
        elif s.np == 1:
            if s.nf != o.nf:
                raise Rejected('fit')
            axis = 'f'
        else:
            if s.np != o.np:
                raise Rejected('fit')
            axis = 'p'
        if s.shape == (1, 1) and o.shape != (1, 1):
            raise Unspecified()
        if not (consistent(s.pn, o.pn) if axis == 'p' else consistent(s.fn, o.fn)):
            raise Rejected('names')
        n, w = o.shape

    def at(x, i, j):
        return x.rows[i if x.np > 1 else 0][j if x.nf > 1 else 0]
    l, r = (o, s) if form == 'os' else (s, o)
    if logical:
        truth(l), truth(r)
    if op in ('truediv', 'floordiv', 'mod') and any(v == 0 for row in r.rows for v in row):
        raise Rejected('zero division')
    rows = []
    for i in range(n):
        row = []
        for j in range(w):
            a, b = at(l, i, j), at(r, i, j)
            if logical:
                v = 1 if getattr(operator, op)(bool(a), bool(b)) else 0
            else:
                v = scalar_op(op, a, b)
            row.append(v)
        rows.append(row)
    if logical:
        return t, ('values', Tab(rows, None, None, w))
    ss = form == 'ss'
    for a, b in ((s.pn, o.pn), (s.fn, o.fn)):
        for x, y in ((a, b), (b, a)):
            if any(v is None for v in x) and any(v is not None for v in x):
                raise Unspecified()
    pn = out_names(s.pn, o.pn, s.np, o.np, n, ss)
    fn = out_names(s.fn, o.fn, s.nf, o.nf, w, ss)
    return t, Tab(rows, pn, fn, w)


def r_st(o, op, form, other, extra=None):
    other = operand(o, other, extra)
    f = getattr(operator, op)
    if form == 'os':
        return f(o, other.stretch)
    if form == 'so':
        return f(o.stretch, other)
    return f(o.stretch, other.stretch)


REG['st'] = (m_st, r_st)
PURE_OPS.add('st')
WITH_EXTRA.add('st')
