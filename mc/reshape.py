"""
Operations that reorganise a table (flatten, unflatten, split, combine, group,
one-hot and integer encoding): reference model and the real call.
"""
import re
from mc.model import Tab, Rejected, Unspecified, resolve, missing, cell, check_unique
from mc.obs import observe, is_base
from mc.ops import REG, PURE_OPS, isnum

NAN = float('nan')
_NUMNAME = re.compile(r'(?<![\w.])(-?\d+)\.0(?=$|_|\()')


def tidy(name):
    """Whole numbers appear as '1' or '1.0' in a generated name."""
    return None if name is None else _NUMNAME.sub(r'\1', name)


def tidy_names(obj):
    ns = obj.features.getNames()
    new = [tidy(x) for x in ns]
    if new != ns:
        obj.features.setNames(new, useLog=False)


def fmt(v):
    if isinstance(v, float) and v == int(v):
        return str(int(v))
    return str(v)


# ------------------------------------------------------------------- flatten
def m_flat(t, order):
    if not t.np or not t.nf:
        raise Rejected()
    cells = [(i, j) for i in range(t.np) for j in range(t.nf)]
    if order == 'feature':
        cells = [(i, j) for j in range(t.nf) for i in range(t.np)]
    fn = None
    if any(t.pn) or any(t.fn):
        fn = []
        for i, j in cells:
            p = t.pn[i] if t.pn[i] is not None else '_PT#%d' % i
            f = t.fn[j] if t.fn[j] is not None else '_FT#%d' % j
            fn.append(p + ' | ' + f)
    return Tab([[t.rows[i][j] for i, j in cells]], ['Flattened'], fn), None


REG['flat'] = (m_flat, lambda o, order: o.flatten(order, useLog=False))


def m_unflat(t, dims, order):
    if (t.np != 1 and t.nf != 1) or not t.np or not t.nf:
        raise Rejected()
    p, f = dims
    if p * f != t.np * t.nf:
        raise Rejected()
    flat = [v for r in t.rows for v in r]
    names = t.pn if t.np > 1 else t.fn
    at = (lambda i, j: i * f + j) if order == 'point' else (lambda i, j: j * p + i)
    rows = [[flat[at(i, j)] for j in range(f)] for i in range(p)]
    pn = fn = None
    if len(names) > 1 and all(x is not None and len(x.split(' | ')) == 2 for x in names):
        sp = [x.split(' | ') for x in names]
        ps = [sp[at(i, 0)][0] for i in range(p)]
        fs = [sp[at(0, j)][1] for j in range(f)]
        grid = all(sp[at(i, j)] == [ps[i], fs[j]] for i in range(p) for j in range(f))
        if grid and len(set(ps)) == p and len(set(fs)) == f:
            pn = [None if x.startswith('_PT#') else x for x in ps]
            fn = [None if x.startswith('_FT#') else x for x in fs]
        else:
            raise Unspecified()   # names that do not align with the dimensions
    return Tab(rows, pn, fn, f), None


REG['unflat'] = (m_unflat, lambda o, dims, order: o.unflatten(tuple(dims), order, useLog=False))


# ---------------------------------------------------------- split by collapsing
def m_split(t, ids, fornames, forvals):
    col = [resolve(t.fn, x) for x in ids]
    if len(set(col)) != len(col):
        raise Unspecified()
    keep = [j for j in range(t.nf) if j not in col]
    labels = [t.fn[j] if t.fn[j] is not None else j for j in col]
    rows, pn = [], []
    for i, r in enumerate(t.rows):
        for k, j in enumerate(col):
            rows.append([r[x] for x in keep] + [labels[k], r[j]])
            pn.append(None if t.pn[i] is None else '%s_%d' % (t.pn[i], k))
    fn = [t.fn[j] for j in keep] + [fornames, forvals]
    check_unique(fn)
    check_unique(pn)
    return Tab(rows, pn, fn, len(fn)), None


REG['split'] = (m_split, lambda o, ids, a, b: o.points.splitByCollapsingFeatures(ids, a, b, useLog=False))


# ------------------------------------------------------- combine by expanding
def m_comb(t, nid, vids, modify):
    ni = resolve(t.fn, nid)
    vi = [resolve(t.fn, v) for v in (vids if isinstance(vids, list) else [vids])]
    rest = [j for j in range(t.nf) if j not in [ni] + vi]
    if not t.np:
        raise Unspecified()
    if len(set([ni] + vi)) != len(vi) + 1:
        raise Rejected()
    groups, order, pn, uniq = {}, [], [], []
    for i, r in enumerate(t.rows):
        if any(missing(r[j]) for j in rest) or missing(r[ni]):
            raise Unspecified()
        key = tuple(cell(r[j]) for j in rest)
        if key not in groups:
            groups[key] = ({}, [r[j] for j in rest])
            order.append(key)
            pn.append(t.pn[i])
        k = cell(r[ni])
        if k not in [cell(u) for u in uniq]:
            uniq.append(r[ni])
        if k in groups[key][0]:
            raise Rejected()
        groups[key][0][k] = [r[j] for j in vi]
    at = min(ni, len(rest))
    prefixes = [fmt(u) for u in uniq]
    if len(set(prefixes)) != len(prefixes):
        if not modify:
            raise Rejected()
        prefixes = [p + ('(%s)' % type(u).__name__ if prefixes.count(p) > 1 else '')
                    for p, u in zip(prefixes, uniq)]
    new = []
    for p in prefixes:
        for j in vi:
            new.append(p if len(vi) == 1 else p + '_' + (t.fn[j] if t.fn[j] is not None else str(j)))
    fn = [t.fn[j] for j in rest]
    fn = fn[:at] + new + fn[at:]
    check_unique(fn)
    rows = []
    for key in order:
        vals, shared = groups[key]
        mid = []
        for u in uniq:
            mid += vals.get(cell(u), [NAN] * len(vi))
        rows.append(shared[:at] + mid + shared[at:])
    return Tab(rows, pn, fn), None


def r_comb(o, nid, vids, modify):
    o.points.combineByExpandingFeatures(nid, vids, modify, useLog=False)
    tidy_names(o)


REG['comb'] = (m_comb, r_comb)


# ------------------------------------------------------------- split by parsing
def cut(v, rule):
    if isinstance(rule, str):
        return v.split(rule)
    if isinstance(rule, int):
        return [v[:rule], v[rule:]]
    out, rest, pos = [], v, 0
    for item in rule:
        if isinstance(item, str):
            if item not in rest:
                raise Rejected()
            head, rest = rest.split(item, 1)
            out.append(head)
            pos += len(head) + len(item)
        else:
            out.append(v[pos:item])
            rest = v[item:]
            pos = item
    return out + [rest]


FUNCS = {'f:half': lambda v: [v[:len(v) // 2], v[len(v) // 2:]],
         'f:num': lambda v: [v // 2, v % 2],
         'f:three': lambda v: [v, 0, v]}


def m_parse(t, ft, rule, names):
    j = resolve(t.fn, ft)
    if not t.np:
        raise Unspecified()
    parts = []
    for r in t.rows:
        v = r[j]
        if isinstance(rule, str) and rule.startswith('f:'):
            if rule == 'f:half' and not isinstance(v, str):
                raise Rejected()
            if rule == 'f:num' and (not isnum(v) or missing(v)):
                raise Unspecified()
            p = FUNCS[rule](v)
        else:
            if not isinstance(v, str):
                raise Rejected()
            p = cut(v, rule)
        if len(p) != len(names):
            raise Rejected()
        parts.append(p)
    fn = t.fn[:j] + names + t.fn[j + 1:]
    check_unique(fn)
    rows = [r[:j] + p + r[j + 1:] for r, p in zip(t.rows, parts)]
    return Tab(rows, t.pn, fn), None


def r_parse(o, ft, rule, names):
    f = FUNCS[rule] if isinstance(rule, str) and rule.startswith('f:') else rule
    if f is not rule:
        g = f
        f = lambda v: g(v)  # noqa
    o.features.splitByParsing(ft, f, list(names), useLog=False)


REG['parse'] = (m_parse, r_parse)


# ------------------------------------------------------------------ group by
def gkey(v):
    return 's:NaN' if missing(v) else cell(v)


def m_group(t, by, count):
    if not t.np:
        raise Unspecified()
    idx = [resolve(t.fn, b) for b in (by if isinstance(by, list) else [by])]
    groups = {}
    order = []
    for i, r in enumerate(t.rows):
        if len(idx) == 1 and isinstance(r[idx[0]], str) and r[idx[0]] == 'NaN':
            raise Unspecified()
        k = tuple(gkey(r[j]) for j in idx)
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(i)
    keep = [j for j in range(t.nf) if j not in idx]
    out = []
    for k in order:
        sub = t.take(groups[k]).takef(keep)
        out.append((k, len(groups[k]) if count else sub.canon()))
    return t, sorted(out, key=repr)


def r_group(o, by, count):
    res = o.groupByFeature(by, countUniqueValueOnly=count, useLog=False)
    out = []
    for k, v in res.items():
        kk = k if isinstance(by, list) else (k,)
        kk = tuple('s:NaN' if x == 'numpy.nan' else gkey(x) for x in kk)
        out.append((kk, v if count else observe(v)))
    return sorted(out, key=repr)


REG['group'] = (m_group, r_group)
PURE_OPS.add('group')


# ------------------------------------------------------------------- encodings
def uniq_cells(vals):
    out = []
    for v in vals:
        if cell(v) not in [cell(u) for u in out]:
            out.append(v)
    return out


def m_onehot(t, ft):
    if not t.np:
        raise Rejected()
    j = resolve(t.fn, ft)
    vals = [r[j] for r in t.rows]
    if any(missing(v) for v in vals):
        raise Unspecified()
    u = uniq_cells(vals)
    prefix = (t.fn[j] if t.fn[j] is not None else str(j)) + '='
    names = [prefix + fmt(x) for x in u]
    order = sorted(range(len(u)), key=lambda k: names[k])
    fn = t.fn[:j] + [names[k] for k in order] + t.fn[j + 1:]
    check_unique(fn)
    rows = [r[:j] + [1 if cell(r[j]) == cell(u[k]) else 0 for k in order] + r[j + 1:] for r in t.rows]
    return Tab(rows, t.pn, fn), None


def r_onehot(o, ft):
    """The order of the new features is not defined: arranged by name here."""
    n = len(o.features)
    j = o.features.getIndex(ft)
    before = o.features.getNames()
    got = o.replaceFeatureWithBinaryFeatures(ft, useLog=False)
    k = len(got)
    now = o.features.getNames()
    if now != before[:j] + got + before[j + 1:] or len(o.features) != n - 1 + k:
        raise AssertionError('returned %r, features now %r' % (got, now))
    tidy_names(o)
    now = o.features.getNames()
    mid = sorted(range(j, j + k), key=lambda i: now[i])
    order = list(range(j)) + mid + list(range(j + k, len(now)))
    if order != list(range(len(now))):
        o.features.permute(order, useLog=False)


REG['onehot'] = (m_onehot, r_onehot)


def m_toint(t, ft):
    if not t.np:
        raise Rejected()
    j = resolve(t.fn, ft)
    u = uniq_cells([r[j] for r in t.rows])
    # zero keeps the value zero
    u.sort(key=lambda v: cell(v) != 0.0)
    code = {cell(v): i for i, v in enumerate(u)}
    rows = [r[:j] + [code[cell(r[j])]] + r[j + 1:] for r in t.rows]
    return Tab(rows, t.pn, t.fn, t.nf), [(float(i), cell(v)) for i, v in enumerate(u)]


REG['toint'] = (m_toint, lambda o, ft: sorted((cell(k), cell(v)) for k, v in
                                              o.transformFeatureToIntegers(ft, useLog=False).items()))
