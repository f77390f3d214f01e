"""
Element level operations and reads: reference model and the real call.

Every operation is [name, axis, args...]; MUTATORS change the object, READS do
not.  Registered in mc.ops through REG.
"""
import math
import nimble
from mc.model import Tab, Rejected, Unspecified, resolve, missing, cell
from mc.obs import build, is_base
from mc.ops import REG, PURE_OPS, isnum, tab_of

NAN = float('nan')


def same(a, b):
    return cell(a) == cell(b)


# ---------------------------------------------------------- element functions
# name -> (function, which cells it is defined on)
def _num(f):
    def g(v, *a):
        return f(v, *a)
    return g


NUMF = {
    'inc': lambda v: v + 1,
    'half': lambda v: v / 2,
    'neg': lambda v: v * -1,
    'zero': lambda v: 0,
    'const': lambda v: 5,
    'inv': lambda v: 1 / v,
    'onehalf': lambda v: v + 0.5 if v == 1 else v,
    'noneone': lambda v: None if v == 1 else v * 10,
    'nonebig': lambda v: v if v <= 1 else None,
    'tonan': lambda v: NAN if v == 0 else v,
    'swap01': lambda v: 1 if v == 0 else 0,
}
ANYF = {
    'tostr': lambda v: 'k' if isinstance(v, str) or v == 0 else 'm',
    'strone': lambda v: 'w' if not isinstance(v, str) and v == 1 else v,
}
IJF = {
    'ij': lambda v, i, j: v + 10 * i + 100 * j,
    'ijdiag': lambda v, i, j: 0 if i == j else v + 1,
    'ijnone': lambda v, i, j: None if i == j else v + 1,
    'ijonly': lambda v, i, j: i * 10 + j,
}
DICTS = {
    'd05': {0: 5, 1: 0},
    'dhalf': {2: 0.5, 3: 0},
    'dstr': {0: 'n'},
    'dfromstr': {'u': 'U', 'v': 4},
}


def efunc(name):
    for d in (NUMF, ANYF, IJF):
        if name in d:
            f = d[name]
            # a fresh function each time: nimble decorates what it is given
            if d is IJF:
                return lambda v, i, j: f(v, i, j)
            return lambda v: f(v)
    return dict(DICTS[name])


def emodel(name, v, i, j, preserve, skip):
    if preserve and isnum(v) and v == 0:
        return 0
    if name in DICTS:
        for k, x in DICTS[name].items():
            if type(k) is str or not isinstance(v, str):
                if v == k:
                    return x
        return v
    if name in NUMF or name in IJF:
        if isinstance(v, str) and name not in ('zero', 'const', 'ijonly'):
            raise Unspecified()
        if v is None:
            raise Unspecified()
    if name == 'inv' and v == 0:
        raise Unspecified()
    if v is None:
        raise Unspecified()
    r = IJF[name](v, i, j) if name in IJF else (NUMF.get(name) or ANYF[name])(v)
    if r is None:
        return v if skip else NAN
    return r


def idx_of(names, lim):
    if lim is None:
        return list(range(len(names)))
    if not isinstance(lim, list):
        lim = [lim]
    out = [resolve(names, x) for x in lim]
    if not out:
        raise Unspecified()
    if len(set(out)) != len(out):
        raise Rejected('duplicates')
    return out


def kw_limits(p, f):
    kw = {}
    if p is not None:
        kw['points'] = p
    if f is not None:
        kw['features'] = f
    return kw


# -------------------------------------------------------------- transformElements
def m_te(t, fn, p, f, preserve, skip):
    if not t.np or not t.nf:
        raise Unspecified()
    pi, fi = idx_of(t.pn, p), idx_of(t.fn, f)
    rows = [list(r) for r in t.rows]
    for i in pi:
        for j in fi:
            rows[i][j] = emodel(fn, rows[i][j], i, j, preserve, skip)
    return Tab(rows, t.pn, t.fn, t.nf), None


def r_te(o, fn, p, f, preserve, skip):
    return o.transformElements(efunc(fn), preserveZeros=preserve,
                               skipNoneReturnValues=skip, useLog=False,
                               **kw_limits(p, f))


REG['te'] = (m_te, r_te)


# -------------------------------------------------------------- calculateOnElements
def m_ce(t, fn, p, f, preserve, skip, out):
    if not t.np or not t.nf:
        raise Unspecified()
    pi, fi = idx_of(t.pn, p), idx_of(t.fn, f)
    rows = [[emodel(fn, t.rows[i][j], i, j, preserve, skip) for j in fi] for i in pi]
    return t, ('values', Tab(rows, None, None, len(fi)), out)


def r_ce(o, fn, p, f, preserve, skip, out):
    return o.calculateOnElements(efunc(fn), preserveZeros=preserve,
                                 skipNoneReturnValues=skip, useLog=False,
                                 outputType=out, **kw_limits(p, f))


REG['ce'] = (m_ce, r_ce)
PURE_OPS.add('ce')

# -------------------------------------------------------------- matching / counting
MATCHF = {
    'zero': lambda v: not isinstance(v, str) and v == 0,
    'one': lambda v: not isinstance(v, str) and v == 1,
    'nonzero': lambda v: isinstance(v, str) or v != 0,
    'str': lambda v: isinstance(v, str),
    'never': lambda v: False,
}
QUERIES = {'== 0': lambda v: v == 0, '> 0': lambda v: v > 0, '!= 1': lambda v: v != 1,
           '<= 1': lambda v: v <= 1, '>= 2': lambda v: v >= 2, '< 0': lambda v: v < 0}


def mmatch(spec, v):
    kind, x = spec
    if kind == 'fn':
        if v is None:
            raise Unspecified()
        return bool(MATCHF[x](v))
    if kind == 'q':
        if isinstance(v, str) or v is None or v != v:
            raise Unspecified()
        return QUERIES[x](v)
    if missing(v):
        raise Unspecified()
    return v == x and isinstance(v, str) == isinstance(x, str)


def rmatch(spec):
    kind, x = spec
    if kind == 'fn':
        f = MATCHF[x]
        return lambda v: f(v)
    return x


def m_me(t, spec, p, f):
    if not t.np or not t.nf:
        raise Unspecified()
    pi, fi = idx_of(t.pn, p), idx_of(t.fn, f)
    rows = [[1 if mmatch(spec, t.rows[i][j]) else 0 for j in fi] for i in pi]
    return t, Tab(rows, [t.pn[i] for i in pi], [t.fn[j] for j in fi], len(fi))


def r_me(o, spec, p, f):
    return o.matchingElements(rmatch(spec), useLog=False, **kw_limits(p, f))


REG['me'] = (m_me, r_me)
PURE_OPS.add('me')


def m_cnt(t, spec):
    if not t.np or not t.nf:
        raise Unspecified()
    return t, sum(mmatch(spec, v) for r in t.rows for v in r)


REG['cnt'] = (m_cnt, lambda o, spec: o.countElements(rmatch(spec)))
PURE_OPS.add('cnt')


def m_cu(t, p, f):
    if not t.np or not t.nf:
        raise Unspecified()
    pi, fi = idx_of(t.pn, p), idx_of(t.fn, f)
    out = {}
    for i in pi:
        for j in fi:
            v = t.rows[i][j]
            if missing(v):
                raise Unspecified()
            k = cell(v)
            out[k] = out.get(k, 0) + 1
    return t, sorted(out.items(), key=str)


def r_cu(o, p, f):
    d = o.countUniqueElements(**kw_limits(p, f))
    return sorted(((cell(k), int(n)) for k, n in d.items()), key=str)


REG['cu'] = (m_cu, r_cu)
PURE_OPS.add('cu')


def m_cz(t):
    return t, any(isnum(v) and v == 0 for r in t.rows for v in r)


REG['cz'] = (m_cz, lambda o: bool(o.containsZero()))
PURE_OPS.add('cz')

# -------------------------------------------------------------- iterateElements
ONLY = {'none': None, 'nz': lambda v: isinstance(v, str) or v != 0, 'one': lambda v: v == 1}


def m_it(t, order, only):
    seq = ([v for r in t.rows for v in r] if order == 'point'
           else [t.rows[i][j] for j in range(t.nf) for i in range(t.np)])
    if only != 'none':
        if any(missing(v) for v in seq):
            raise Unspecified()
        seq = [v for v in seq if ONLY[only](v)]
    return t, [cell(v) for v in seq]


REG['it'] = (m_it, lambda o, order, only: [cell(v) for v in o.iterateElements(order, ONLY[only])])
PURE_OPS.add('it')


# -------------------------------------------------------------- indexing
# a key part: int, str, ['s', start, stop] inclusive slice, ['l', [...]], ['m', mask]
def part_model(names, k):
    """-> (list of indices or None for everything, is single)"""
    n = len(names)
    if isinstance(k, list):
        if k[0] == 's':
            s, e = k[1], k[2]
            if s is None and e is None:
                return list(range(n)), False
            if n == 0:
                raise Unspecified()
            s = 0 if s is None else resolve(names, s)
            e = n - 1 if e is None else resolve(names, e)
            if s > e:
                raise Unspecified()
            return list(range(s, e + 1)), False
        if k[0] == 'm':
            if len(k[1]) != n or not any(k[1]):
                raise Unspecified()
            return [i for i, b in enumerate(k[1]) if b], False
        if not k[1]:
            raise Unspecified()
        idx = [resolve(names, x) for x in k[1]]
        if len(set(idx)) != len(idx):
            raise Rejected('duplicates')
        return idx, False
    if isinstance(k, float):
        if k != int(k):
            raise Rejected('float')
        k = int(k)
    return [resolve(names, k)], True


def part_real(k):
    if isinstance(k, list):
        if k[0] == 's':
            return slice(k[1], k[2])
        if k[0] == 'm':
            return [bool(b) for b in k[1]]
        return list(k[1])
    return k


def key_model(t, key):
    if key[0] == '1':
        k = key[1]
        if t.np == 1:
            x, y = 0, k
        elif t.nf == 1:
            x, y = k, 0
        elif isinstance(k, str):
            inp, inf = k in t.pn, k in t.fn
            if inp == inf:
                raise Rejected('ambiguous')
            x, y = (k, ['s', None, None]) if inp else (['s', None, None], k)
        elif isinstance(k, list):
            raise Unspecified()
        else:
            raise Rejected('two needed')
    else:
        x, y = key[1], key[2]
    xi, sx = part_model(t.pn, x)
    yi, sy = part_model(t.fn, y)
    return xi, yi, sx and sy


def m_get(t, key):
    xi, yi, scalar = key_model(t, key)
    if scalar:
        return t, ('cell', t.rows[xi[0]][yi[0]])
    return t, t.take(xi).takef(yi)


def key_real(key):
    if key[0] == '1':
        return part_real(key[1])
    return (part_real(key[1]), part_real(key[2]))


REG['get'] = (m_get, lambda o, key: o[key_real(key)])
PURE_OPS.add('get')


def m_set(t, key, val):
    """val: scalar or ['v', nested list]"""
    if key[0] == '1':
        raise Unspecified()
    xi, yi, scalar = key_model(t, key)
    rows = [list(r) for r in t.rows]
    if isinstance(val, list):
        flat = [v for r in val[1] for v in r]
        if len(flat) != len(xi) * len(yi):
            raise Rejected('size')
        it = iter(flat)
        for i in xi:
            for j in yi:
                rows[i][j] = next(it)
    else:
        for i in xi:
            for j in yi:
                rows[i][j] = val
    return Tab(rows, t.pn, t.fn, t.nf), None


def r_set(o, key, val):
    o[key_real(key)] = val[1] if isinstance(val, list) else val


REG['set'] = (m_set, r_set)


# -------------------------------------------------------------- replaceRectangle
def m_rr(t, val, ps, fs, pe, fe):
    """val scalar or Tab"""
    if not t.np or not t.nf:
        raise Unspecified()
    if isinstance(val, str):
        raise Rejected('constant must be numeric')
    a, b = resolve(t.pn, ps), resolve(t.fn, fs)
    if isinstance(val, Tab):
        c = a + val.np - 1 if pe is None else resolve(t.pn, pe)
        d = b + val.nf - 1 if fe is None else resolve(t.fn, fe)
        if (pe is None) != (fe is None):
            raise Unspecified()
        if c >= t.np or d >= t.nf or c < a or d < b:
            raise Rejected('bounds')
        if (c - a + 1, d - b + 1) != val.shape:
            raise Rejected('shape')
    else:
        if pe is None or fe is None:
            raise Rejected('ends required')
        else:
            c, d = resolve(t.pn, pe), resolve(t.fn, fe)
        if c < a or d < b:
            raise Rejected('order')
    rows = [list(r) for r in t.rows]
    for i in range(a, c + 1):
        for j in range(b, d + 1):
            rows[i][j] = val.rows[i - a][j - b] if isinstance(val, Tab) else val
    return Tab(rows, t.pn, t.fn, t.nf), None


def r_rr(o, val, ps, fs, pe, fe, extra=None):
    if isinstance(val, dict):
        tt = tab_of(val)
        val = build(tt, val.get('type') or o.getTypeString())
        if extra is not None:
            extra.append((val, tt))
    kw = {}
    if pe is not None:
        kw['pointEnd'] = pe
    if fe is not None:
        kw['featureEnd'] = fe
    return o.replaceRectangle(val, ps, fs, useLog=False, **kw)


REG['rr'] = (m_rr, r_rr)

# -------------------------------------------------------------- axis transform
TF = {
    'rev': lambda v: list(v)[::-1],
    'zeros': lambda v: [0] * len(v),
    'sevens': lambda v: [7.5] * len(v),
    'base+1': lambda v: v + 1,
    'tuplelen': lambda v: tuple(i for i in range(len(v))),
    'nones': lambda v: [None] * len(v),
    'short': lambda v: list(v)[:-1],
    'scalar': lambda v: 3,
    'strs': lambda v: ['q%d' % i for i in range(len(v))],
}


def m_tax(t, fn, lim):
    if not t.np or not t.nf:
        raise Unspecified()
    idx = idx_of(t.pn, lim)
    if fn in ('short', 'scalar'):
        raise Rejected('length')
    rows = [list(r) for r in t.rows]
    for i in idx:
        r = rows[i]
        if fn == 'base+1':
            if not all(isnum(v) for v in r):
                raise Unspecified()
            rows[i] = [v + 1 for v in r]
        else:
            rows[i] = list(TF[fn](r))
    return Tab(rows, t.pn, t.fn, t.nf), None


def r_tax(ax, fn, lim):
    f = TF[fn]
    return ax.transform(lambda v: f(v), lim, useLog=False)


REG['tax'] = (m_tax, r_tax)

# -------------------------------------------------------------- axis calculate
CF = {
    'sum': lambda v: sum(v),
    'zero': lambda v: 0,
    'first': lambda v: v[0],
    'minmax': lambda v: [min(v), max(v)],
    'rev': lambda v: list(v)[::-1],
    'len': lambda v: len(v),
    'anyzero': lambda v: any(x == 0 for x in v),
    'str': lambda v: 's%d' % len(v),
    'nan': lambda v: NAN,
    'pair0': lambda v: (0, v[len(v) - 1]),
}


def m_cax(t, fn, lim):
    if not t.np or not t.nf:
        raise Unspecified()
    idx = idx_of(t.pn, lim)
    rows = []
    for i in idx:
        r = t.rows[i]
        if fn in ('sum', 'minmax'):
            if not all(isnum(v) for v in r):
                raise Unspecified()
        if fn == 'anyzero' and any(missing(v) for v in r):
            raise Unspecified()
        x = CF[fn](r)
        rows.append(list(x) if isinstance(x, (list, tuple)) else [x])
    if fn == 'anyzero':
        rows = [[1 if x else 0 for x in r] for r in rows]
    return t, Tab(rows, [t.pn[i] for i in idx], None, len(rows[0]))


def r_cax(ax, fn, lim):
    f = CF[fn]
    return ax.calculate(lambda v: f(v), lim, useLog=False)


REG['cax'] = (m_cax, r_cax)
PURE_OPS.add('cax')


def m_max(t, fn):
    if not t.np or not t.nf:
        raise Unspecified()
    out = []
    for r in t.rows:
        if any(missing(v) for v in r):
            raise Unspecified()
        out.append([1 if MATCHAX[fn](r) else 0])
    return t, Tab(out, t.pn, None, 1)


MATCHAX = {'first0': lambda v: v[0] == 0, 'any1': lambda v: any(x == 1 for x in v),
           'never': lambda v: False}
REG['max'] = (m_max, lambda ax, fn: ax.matching(lambda v: MATCHAX[fn](v), useLog=False))
PURE_OPS.add('max')

# -------------------------------------------------------------- mapReduce
MAPPERS = {
    'byfirst': (lambda v: [(v[0], v[len(v) - 1])]),
    'each': (lambda v: [(x, 1) for x in v]),
}
REDUCERS = {
    'count': lambda k, vs: (k, len(vs)),
    'last': lambda k, vs: (k, vs[-1]),
    'drop1': lambda k, vs: None if k == 1 else (k, len(vs)),
}


def m_mr(t, mp, rd):
    if not t.np or not t.nf:
        raise Unspecified()
    res = {}
    for r in t.rows:
        if any(missing(v) for v in r):
            raise Unspecified()
        for k, v in MAPPERS[mp](r):
            res.setdefault(k, []).append(v)
    out = []
    for k, vs in res.items():
        x = REDUCERS[rd](k, vs)
        if x is not None:
            out.append(list(x))
    if not out:
        raise Unspecified()
    return t, ('values!', Tab(out, None, None, 2))


REG['mr'] = (m_mr, lambda ax, mp, rd: ax.mapReduce(MAPPERS[mp], REDUCERS[rd], useLog=False))
PURE_OPS.add('mr')
AXIS_OPS = {'tax', 'cax', 'max', 'mr'}
