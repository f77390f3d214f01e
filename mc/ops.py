"""
Structural operations: for each, how to call it on a nimble object and what the
reference table does.  An operation instance is a JSON-able list
[opname, axis, arg, ...]; axis is 'p' or 'f'.
"""
import itertools
import nimble

from mc.model import Tab, Rejected, Unspecified, resolve, check_unique, missing
from mc.obs import build

# ---------------------------------------------------------------- selection
# selector specs:
#  ['id', x]  ['ids', [x..]]  ['range', start, end]  ['num', n]
#  ['idsnum', [x..], n]  ['rangenum', s, e, n]
#  ['fn', kind]  ['fnlim', kind, limit]  ['q', string]
#  ['bad', ...] argument combinations which must be refused


def isnum(v):
    return not isinstance(v, str) and not missing(v)


PREDS = {
    # name: (real function on a view, model function on a list of values)
    'first>0': (lambda v: v[0] > 0, lambda r: r[0] > 0),
    'anyzero': (lambda v: any(x == 0 for x in v), lambda r: any(x == 0 for x in r)),
    'all': (lambda v: True, lambda r: True),
    'none': (lambda v: False, lambda r: False),
    'last==1': (lambda v: v[len(v) - 1] == 1, lambda r: r[-1] == 1),
}


def pred_defined(kind, row):
    if kind in ('all', 'none'):
        return True
    if not row:
        return False
    if kind == 'first>0':
        return isnum(row[0])
    return True


def select_model(tab, sel):
    """Indices selected from the points of tab, in order."""
    kind = sel[0]
    n = tab.np
    if kind == 'id':
        return [resolve(tab.pn, sel[1])]
    if kind in ('ids', 'idsnum'):
        if n == 0:
            if sel[1]:
                raise Rejected('empty')
        idx = [resolve(tab.pn, x) for x in sel[1]]
        if len(set(idx)) != len(idx):
            raise Rejected('duplicates')
        num = sel[2] if kind == 'idsnum' else None
    elif kind in ('range', 'rangenum'):
        s, e = sel[1], sel[2]
        if n == 0:
            raise Rejected('empty')
        s = 0 if s is None else resolve(tab.pn, s)
        e = n - 1 if e is None else resolve(tab.pn, e)
        if s > e:
            raise Rejected('start after end')
        idx = list(range(s, e + 1))
        num = sel[3] if kind == 'rangenum' else None
    elif kind == 'num':
        idx, num = list(range(n)), sel[1]
    elif kind == 'fn':
        for r in tab.rows:
            if not pred_defined(sel[1], r):
                raise Unspecified()
        idx = [i for i, r in enumerate(tab.rows) if PREDS[sel[1]][1](r)]
        num = None
    elif kind == 'fnlim':
        lim = [resolve(tab.fn, x) for x in sel[2]]
        rows = [[r[j] for j in lim] for r in tab.rows]
        for r in rows:
            if not pred_defined(sel[1], r):
                raise Unspecified()
        idx = [i for i, r in enumerate(rows) if PREDS[sel[1]][1](r)]
        num = None
    elif kind == 'q':
        name, op, val = sel[1], sel[2], sel[3]
        if name in tab.pn or n == 0:
            raise Unspecified()
        j = resolve(tab.fn, name)
        idx = []
        for i, r in enumerate(tab.rows):
            if not isnum(r[j]):
                raise Unspecified()
            if {'==': r[j] == val, '!=': r[j] != val, '>': r[j] > val,
                    '<': r[j] < val, '>=': r[j] >= val, '<=': r[j] <= val}[op]:
                idx.append(i)
        num = None
    elif kind == 'bad':
        raise Rejected('combination')
    else:
        raise AssertionError(kind)
    if num is not None:
        if num < 1 or num > len(idx):
            raise Rejected('number')
        idx = idx[:num]
    return idx


def select_kwargs(sel, name, offname):
    kind = sel[0]
    if kind in ('id', 'ids'):
        return {name: sel[1]}
    if kind == 'idsnum':
        return {name: list(sel[1]), 'number': sel[2]}
    if kind == 'range':
        return {'start': sel[1], 'end': sel[2]}
    if kind == 'rangenum':
        return {'start': sel[1], 'end': sel[2], 'number': sel[3]}
    if kind == 'num':
        return {'number': sel[1]}
    if kind == 'fn':
        return {name: PREDS[sel[1]][0]}
    if kind == 'fnlim':
        return {name: PREDS[sel[1]][0], offname: list(sel[2])}
    if kind == 'q':
        return {name: '%s %s %s' % (sel[1], sel[2], sel[3])}
    if kind == 'bad':
        which = sel[1]
        if which == 'nothing':
            return {}
        if which == 'target+start':
            return {name: 0, 'start': 0}
        if which == 'randomize':
            return {name: [0], 'randomize': True}
        if which == 'limit':
            return {name: 0, offname: 0}
        if which == 'query':
            return {name: 'nosuchname > 0'}
    raise AssertionError(sel)


def selectors(names, offnames, n, noff, rich=True):
    """Every selector in the alphabet for an axis of n vectors."""
    out = []
    for i in range(n):
        out.append(['id', i])
    if n:
        out.append(['id', -1])
    out.append(['id', n])
    out.append(['id', -n - 1])
    for nm in names:
        if nm is not None:
            out.append(['id', nm])
    out.append(['id', 'nosuch'])
    out.append(['ids', []])
    ids = list(range(n))
    for k in range(1, min(n, 3) + 1):
        for perm in itertools.permutations(ids, k):
            # mix names and indices
            mixed = [names[i] if (names[i] is not None and (i + k) % 2) else i
                     for i in perm]
            out.append(['ids', mixed])
    if n:
        out.append(['ids', [0, 0]])
        out.append(['ids', [0, -n]])
        if names[0] is not None:
            out.append(['ids', [0, names[0]]])
        out.append(['ids', [n - 1, 99]])
    for s in [None] + ids:
        for e in [None] + ids:
            if s is None and e is None:
                continue
            out.append(['range', s, e])
    if n and names[-1] is not None:
        out.append(['range', None, names[-1]])
        out.append(['range', names[-1], None])
    for k in range(0, n + 2):
        out.append(['num', k])
    if n >= 2:
        out.append(['idsnum', [n - 1, 0], 1])
        out.append(['idsnum', [n - 1, 0], 3])
        out.append(['rangenum', 1, None, 1])
        out.append(['rangenum', 0, 1, 2])
        out.append(['rangenum', 0, 1, 3])
    for k in PREDS:
        out.append(['fn', k])
    if noff >= 2:
        out.append(['fnlim', 'first>0', [noff - 1]])
        out.append(['fnlim', 'last==1', [1, 0]])
        out.append(['fnlim', 'anyzero', [0]])
    for nm in offnames:
        if nm is not None:
            for op in ('==', '>', '<=', '!='):
                out.append(['q', nm, op, 1])
            break
    for b in ('nothing', 'target+start', 'randomize', 'limit', 'query'):
        if n or b in ('nothing', 'query'):
            out.append(['bad', b])
    return out


# ---------------------------------------------------------------- model ops
def m_copy(t, sel):
    return t, t.take(select_model(t, sel))


def m_extract(t, sel):
    idx = select_model(t, sel)
    rest = [i for i in range(t.np) if i not in idx]
    return t.take(rest), t.take(idx)


def m_delete(t, sel):
    idx = select_model(t, sel)
    return t.take([i for i in range(t.np) if i not in idx]), None


def m_retain(t, sel):
    return t.take(select_model(t, sel)), None


def m_count(t, sel):
    if sel[0] not in ('fn', 'q', 'fnlim'):
        raise Unspecified()
    return t, len(select_model(t, sel))


def sort_keys(t, j):
    col = [r[j] for r in t.rows]
    if any(missing(v) for v in col):
        raise Unspecified()
    if len({isinstance(v, str) for v in col}) > 1:
        raise Unspecified()
    return col


def m_sort(t, by, reverse):
    if by is None:
        if t.np == 0:
            raise Unspecified()
        if any(n is None for n in t.pn):
            raise Rejected('default names')
        order = sorted(range(t.np), key=lambda i: t.pn[i], reverse=reverse)
    elif by == 'fn:first':
        if t.nf == 0 and t.np:
            raise Unspecified()
        col = sort_keys(t, 0) if t.np else []
        order = sorted(range(t.np), key=lambda i: col[i], reverse=reverse)
    elif by == 'cmp:last':
        if t.nf == 0 and t.np:
            raise Unspecified()
        col = sort_keys(t, t.nf - 1) if t.np else []
        if any(isinstance(c, str) for c in col):
            raise Unspecified()
        order = sorted(range(t.np), key=lambda i: col[i], reverse=reverse)
    else:
        ids = by if isinstance(by, list) else [by]
        if t.np == 0:
            raise Unspecified()
        js = [resolve(t.fn, x) for x in ids]
        cols = [sort_keys(t, j) for j in js]
        order = sorted(range(t.np), key=lambda i: tuple(c[i] for c in cols),
                       reverse=reverse)
    return t.take(order), None


def r_sort(ax, by, reverse):
    if by == 'fn:first':
        by = lambda v: v[0]
    elif by == 'cmp:last':
        by = lambda a, b: int(a[len(a) - 1] > b[len(b) - 1]) - int(a[len(a) - 1] < b[len(b) - 1])
    return ax.sort(by, reverse=reverse, useLog=False)


def m_permute(t, order):
    if t.np == 0 and order:
        raise Rejected('empty')
    idx = [resolve(t.pn, x) for x in order]
    if sorted(idx) != list(range(t.np)):
        raise Rejected('not a permutation')
    return t.take(idx), None


def inconsistent(a, b):
    def half(x, y):
        for i, nm in enumerate(x):
            if nm is not None:
                if y[i] is not None:
                    if nm != y[i]:
                        return True
                elif nm in y:
                    return True
        return False
    return half(a, b) or half(b, a)


def m_insert(t, before, ins):
    """ins: Tab.  before None appends."""
    n = t.np
    if before is None:
        pos = n
    elif before == n and not isinstance(before, str) and n > 0:
        pos = n
    elif n == 0:
        if before == 0:
            raise Unspecified()
        raise Rejected('empty')
    else:
        pos = resolve(t.pn, before)
    if t.nf != ins.nf:
        raise Rejected('length')
    if {x for x in t.pn if x is not None} & {x for x in ins.pn if x is not None}:
        raise Rejected('shared names')
    new = ins
    tany = any(x is not None for x in t.fn)
    iany = any(x is not None for x in ins.fn)
    if tany and iany and inconsistent(t.fn, ins.fn):
        if None in t.fn or None in ins.fn or set(t.fn) != set(ins.fn):
            raise Rejected('names')
        new = ins.takef([ins.fn.index(x) for x in t.fn])
    rows = t.rows[:pos] + new.rows + t.rows[pos:]
    pn = t.pn[:pos] + new.pn + t.pn[pos:]
    return Tab(rows, pn, t.fn, t.nf), None


def m_replace(t, data, locs):
    """data: Tab, nimble object; locs list of identifiers or None."""
    if t.np == 0 or t.nf == 0:
        raise Unspecified()
    if locs is None and data.shape == t.shape:
        idx = list(range(t.np))
    elif locs is None:
        if all(x is None for x in t.pn) or all(x is None for x in data.pn):
            raise Rejected('names')
        if any(x is None for x in data.pn):
            raise Unspecified()
        idx = [resolve(t.pn, x) for x in data.pn]
    else:
        idx = [resolve(t.pn, x) for x in locs]
    if len(idx) != data.np or data.nf != t.nf:
        raise Rejected('shape')
    rows = [list(r) for r in t.rows]
    for i, r in zip(idx, data.rows):
        rows[i] = list(r)
    return Tab(rows, t.pn, t.fn, t.nf), None


def m_repeat(t, k, each):
    if t.np == 0 or t.nf == 0:
        raise Unspecified()
    if k < 1:
        raise Rejected('copies')
    if k == 1:
        return t, t.copy()
    if each:
        idx = [(i, c) for i in range(t.np) for c in range(k)]
    else:
        idx = [(i, c) for c in range(k) for i in range(t.np)]
    rows = [t.rows[i] for i, _ in idx]
    pn = [None if t.pn[i] is None else '%s_%d' % (t.pn[i], c + 1) for i, c in idx]
    return t, Tab(rows, pn, t.fn, t.nf)


def m_unique(t):
    if t.np == 0 or t.nf == 0:
        raise Unspecified()
    seen, idx = [], []
    for i, r in enumerate(t.rows):
        if any(missing(v) for v in r):
            raise Unspecified()
        if r not in seen:
            seen.append(r)
            idx.append(i)
    ret = t.take(idx)
    return t, ret


def m_setname(t, old, new):
    if t.np == 0:
        raise Rejected('empty')
    i = resolve(t.pn, old)
    if new is not None and new in t.pn and t.pn.index(new) != i:
        raise Rejected('in use')
    pn = list(t.pn)
    pn[i] = new
    return Tab(t.rows, pn, t.fn, t.nf), None


def m_setall(t, new):
    if new is None:
        return Tab(t.rows, None, t.fn, t.nf), None
    if len(new) != t.np:
        raise Rejected('length')
    check_unique(new)
    return Tab(t.rows, new, t.fn, t.nf), None


def tab_of(spec):
    return Tab(spec['rows'], spec.get('pn'), spec.get('fn'), spec.get('nf'))


def spec_of(t):
    return {'rows': t.rows, 'pn': t.pn, 'fn': t.fn, 'nf': t.nf}


# ---------------------------------------------------------------- dispatch
SEL = {'copy': m_copy, 'extract': m_extract, 'delete': m_delete,
       'retain': m_retain, 'count': m_count}


# further operations: name -> (model(tab, *args), real(obj or axis, *args))
REG = {}
PURE_OPS = set()
WITH_EXTRA = {'rr'}


def model_apply(t, op):
    """-> (new table, result)"""
    name, axis, args = op[0], op[1], op[2:]
    if name in REG:
        model = REG[name][0]
        if axis == 'f':
            nt, ret = model(t.T, *[a.T if isinstance(a, Tab) else a for a in map(_totab, args)])
            return nt.T, (ret.T if isinstance(ret, Tab) else ret)
        return model(t, *[_totab(a) for a in args])
    if name == 'transpose':
        return t.T, None
    if axis == 'f':
        args = [a.T if isinstance(a, Tab) else a for a in map(_totab, args)]
        nt, ret = _model_p(t.T, name, args)
        return nt.T, (ret.T if isinstance(ret, Tab) else ret)
    return _model_p(t, name, [_totab(a) for a in args])


def _totab(a):
    if isinstance(a, dict) and 'rows' in a:
        return tab_of(a)
    return a


def _model_p(t, name, args):
    if name in SEL:
        return SEL[name](t, args[0])
    if name == 'sort':
        return m_sort(t, *args)
    if name == 'permute':
        return m_permute(t, args[0])
    if name == 'insert':
        return m_insert(t, args[0], args[1])
    if name == 'append':
        return m_insert(t, None, args[0])
    if name == 'replace':
        return m_replace(t, args[0], args[1])
    if name == 'repeat':
        return m_repeat(t, *args)
    if name == 'unique':
        return m_unique(t)
    if name == 'setname':
        return m_setname(t, *args)
    if name == 'setall':
        return m_setall(t, args[0])
    raise AssertionError(name)


def real_apply(obj, op, extra=None):
    """
    Apply op to obj; returns the call's return value.  extra, if a list,
    collects (argument object, its model table) pairs for the caller to verify
    that arguments were left alone.
    """
    name, axis, args = op[0], op[1], op[2:]
    if name in REG:
        target = obj if axis == '-' else obj.points if axis == 'p' else obj.features
        if name in WITH_EXTRA:
            return REG[name][1](target, *args, extra=extra)
        return REG[name][1](target, *args)
    if name == 'transpose':
        return obj.transpose(useLog=False)
    ax, off = (obj.points, 'features') if axis == 'p' else (obj.features, 'points')
    if name in SEL:
        if name == 'count':
            kw = select_kwargs(args[0], 'condition', off)
            return ax.count(**kw)
        kw = select_kwargs(args[0], 'to' + name.capitalize(), off)
        return getattr(ax, name)(useLog=False, **kw)
    if name == 'sort':
        return r_sort(ax, *args)
    if name == 'permute':
        return ax.permute(list(args[0]), useLog=False)
    if name in ('insert', 'append', 'replace'):
        spec = args[1] if name == 'insert' else args[0]
        rtype = spec.get('type') or obj.getTypeString()
        t = tab_of(spec)
        other = build(t, rtype)
        if extra is not None:
            extra.append((other, t))
        if name == 'insert':
            return ax.insert(args[0], other, useLog=False)
        if name == 'append':
            return ax.append(other, useLog=False)
        return ax.replace(other, args[1], useLog=False)
    if name == 'repeat':
        return ax.repeat(args[0], args[1])
    if name == 'unique':
        return ax.unique()
    if name == 'setname':
        return ax.setNames(args[1], oldIdentifiers=args[0], useLog=False)
    if name == 'setall':
        return ax.setNames(args[0], useLog=False)
    raise AssertionError(name)
