"""D06: element reads, writes and transformations agree with the table model."""
from mc.model import Tab
from mc.histories import explore
from mc.ops import spec_of
from mc.obs import TYPES
from mc import elem  # noqa: F401  (registers the operations)
from mc.variants import MUTABLE, VIEWS, applicable
from mc.checks import D01

PROPERTY = 'D06'
LEVEL = 'model_checking'
RULE = ('every element operation of the alphabet applied to every initial table reached through every hidden-state variant '
        'and view, and after every mutating operation (depth 2); state = observable table plus last operation')
ASSUMPTIONS = ['cell alphabet {0,1,2,3,-1,0.5,7.5,NaN} and short strings; no strings in Sparse objects '
               '(the installed scipy rejects object arrays)', 'tables up to 3x3']

NAN = float('nan')


def inits():
    return [
        ('n', Tab([[1, 0, 2], [0, 3, 0]], ['a', 'b'], ['x', 'y', 'z'])),
        ('n', Tab([[0, 1, 0], [2, 0, 1], [1, 0, 0]])),
        ('n', Tab([[0, 0.5], [1, 2]], ['a', None], [None, 'y'])),
        ('n', Tab([[NAN, 1], [0, 2]], None, ['x', 'y'])),
        ('n', Tab([[0, 0], [0, 0]], ['a', 'b'], None)),
        ('n', Tab([[1, 0, 1]], ['a'], ['x', 'y', 'z'])),
        ('n', Tab([[0], [1], [2]], None, ['x'])),
        ('n', Tab([[1]])),
        ('b', Tab([[True, False], [False, True]], None, ['x', 'y'])),
        ('s', Tab([['u', 0, 1], ['v', 1, 0]], ['a', 'b'], ['x', 'y', 'z'])),
        ('s', Tab([['u', 'v'], ['v', 'u']], ['a', 'b'], ['x', 'y'])),
    ]


def limits(names, full):
    n = len(names)
    out = [None, [n - 1]]
    if n > 1:
        out.append([1, 0])
        if full:
            out += [[0], -1]
            if n > 2:
                out.append([0, 2])
    if full:
        nm = [x for x in names if x is not None]
        if nm:
            out.append(nm[-1])
        out.append([n])
    return out


def element_ops(t, which, full):
    out = []
    fns = list(elem.NUMF) + list(elem.ANYF) + list(elem.IJF) + list(elem.DICTS)
    lp, lf = limits(t.pn, full), limits(t.fn, full)
    for fn in fns:
        for a, p in enumerate(lp):
            for b, f in enumerate(lf):
                if a and b and (a + b) % 2 and full:
                    continue
                for pz in (False, True):
                    if fn in elem.DICTS and pz and (a or b):
                        continue
                    sks = (False, True) if 'none' in fn else (False,)
                    for sk in sks:
                        if which == 'te':
                            out.append(['te', '-', fn, p, f, pz, sk])
                        else:
                            o = None if (a + b) % 2 == 0 else 'Matrix' if fn != 'inc' else 'List'
                            out.append(['ce', '-', fn, p, f, pz, sk, o])
    return out


def keys1(names, full):
    n = len(names)
    out = [0, -1, ['s', None, None], ['s', None, 0], ['l', [n - 1]]]
    if n > 1:
        out += [['l', [n - 1, 0]], ['s', 1, None]]
    nm = [x for x in names if x is not None]
    if nm:
        out.append(nm[-1])
    if full:
        out += [n, -n - 1, 'nosuch', 0.0, 0.5, ['s', 0, -1], ['l', [0, 0]],
                ['m', [True] * n], ['m', [True] + [False] * (n - 1)], ['l', [-1]]]
        if n > 1:
            out += [['s', 0, n - 2], ['m', [False] * (n - 1) + [True]]]
        if nm:
            out += [['s', nm[0], None], ['s', None, nm[-1]], ['l', [nm[-1]]],
                    ['l', [nm[-1], nm[0]]] if len(nm) > 1 else ['l', [nm[0]]]]
    return out


def reads(t, full):
    out = []
    ks = keys1(t.pn, full)
    fs = keys1(t.fn, full)
    for a, k in enumerate(ks):
        for b, f in enumerate(fs):
            out.append(['get', '-', ['2', k, f]])
    for k in ks + fs:
        if not (isinstance(k, float) or k == ['s', None, None]):
            out.append(['get', '-', ['1', k]])
    specs = [['fn', x] for x in elem.MATCHF] + [['q', x] for x in elem.QUERIES] + [['val', 0], ['val', 1], ['val', 'u']]
    for s in specs:
        if s[0] != 'val':
            out.append(['cnt', '-', s])
        for p in limits(t.pn, full):
            for f in limits(t.fn, False):
                out.append(['me', '-', s, p, f])
    for p in limits(t.pn, full):
        for f in limits(t.fn, full):
            out.append(['cu', '-', p, f])
    out.append(['cz', '-'])
    for order in ('point', 'feature'):
        for only in elem.ONLY:
            out.append(['it', '-', order, only])
    for axis in 'pf':
        names = t.pn if axis == 'p' else t.fn
        for fn in elem.CF:
            for lim in limits(names, full):
                out.append(['cax', axis, fn, lim])
        for fn in elem.MATCHAX:
            out.append(['max', axis, fn])
        for m in (elem.MAPPERS if axis == 'p' else ()):
            for r in elem.REDUCERS:
                out.append(['mr', axis, m, r])
    return out


def writes(t, full, strings):
    out = []
    n, w = t.shape
    vals = [0, 4, 0.5, NAN] + (['k'] if strings else [])
    for k in keys1(t.pn, full):
        for f in keys1(t.fn, full):
            for v in vals if full else vals[:2]:
                out.append(['set', '-', ['2', k, f], v])
    k2, f2 = ['s', None, None], ['l', list(range(w))[::-1]]
    out.append(['set', '-', ['2', k2, f2], ['v', [[(i + j) % 3 for j in range(w)] for i in range(n)]]])
    out.append(['set', '-', ['2', 0, k2], ['v', [[8 - j for j in range(w)]]]])
    out.append(['set', '-', ['2', k2, 0], ['v', [[i] for i in range(n)]]])
    if n > 1:
        out.append(['set', '-', ['2', k2, 0], ['v', [[1]]]])
    pos = [(a, b, c, d) for a in range(n) for b in range(w) for c in range(a, n) for d in range(b, w)]
    for a, b, c, d in pos:
        for v in ((0, 4) if full else (4,)):
            out.append(['rr', '-', v, a, b, c, d])
        blocks = [[[9, 0, 8][:d - b + 1]] * (c - a + 1)]
        if full:
            blocks.append([[0, 7, 0][:d - b + 1] if i else [0, 0, 6][:d - b + 1] for i in range(c - a + 1)])
            blocks.append([[0] * (d - b + 1)] * (c - a + 1))
        for i, bl in enumerate(blocks):
            sp = spec_of(Tab(bl, [None] * len(bl) if i else ['x%d' % k for k in range(len(bl))], None))
            if i == 1:
                sp['type'] = 'List'
            out.append(['rr', '-', sp, a, b, None if i == 0 else c, None if i == 0 else d])
    if full:
        out.append(['rr', '-', spec_of(Tab([[1] * (w + 1)])), 0, 0, None, None])
        out.append(['rr', '-', spec_of(Tab([[1]] * n)), n - 1, 0, None, None] if n > 1 else
                   ['rr', '-', spec_of(Tab([[1], [1]])), 0, 0, None, None])
        out.append(['rr', '-', spec_of(Tab([[1, 2]])), 0, 0, 0, 0])
        out.append(['rr', '-', 3, n - 1, 0, 0, 0] if n > 1 else ['rr', '-', 3, 0, 0, 1, 0])
        if t.pn[-1] and t.fn[-1]:
            out.append(['rr', '-', 3, t.pn[-1], t.fn[-1], -1, -1])
        out.append(['rr', '-', NAN, 0, 0, n - 1, w - 1])
        out.append(['rr', '-', 4, 0, 0, None, None])
        if strings:
            out.append(['rr', '-', 'k', 0, 0, n - 1, 0])
    for axis in 'pf':
        names = t.pn if axis == 'p' else t.fn
        for fn in elem.TF:
            if fn == 'strs' and not strings:
                continue
            for lim in limits(names, full):
                if fn in ('scalar', 'short') and (t.nf if axis == 'p' else t.np) < 2 and fn == 'short':
                    continue
                out.append(['tax', axis, fn, lim])
    return out


def ok(op, strings):
    if strings:
        return True
    flat = repr(op)
    return not any(x in flat for x in ("'tostr'", "'strone'", "'dstr'", "'dfromstr'", "'strs'", "'u'", "'str'"))


def alphabet(level, rtype):
    """level[@k/n]: every n-th operation of the level."""
    if '@' in level:
        name, part = level.split('@')
        k, n = map(int, part.split('/'))
        full = alphabet_(name, rtype)
        return lambda *a: full(*a)[k::n]
    return alphabet_(level, rtype)


def alphabet_(level, rtype):
    strings = rtype != 'Sparse'

    def ops(t):
        out = []
        if not t.np or not t.nf:
            return []
        if level == 'te':
            out += element_ops(t, 'te', True)
        if level == 'ce':
            out += element_ops(t, 'ce', True)
        if level == 'te2':
            out += element_ops(t, 'te', False)
        if level == 'ce2':
            out += element_ops(t, 'ce', False)
        if level == 'reads':
            out += reads(t, True)
        if level in ('reads2', 'next'):
            out += reads(t, False)
        if level == 'writes':
            out += writes(t, True, strings)
        if level in ('writes2', 'next'):
            out += writes(t, False, strings)
        if level == 'mut':
            m = writes(t, False, strings)
            sel = [o for o in m if o[0] == 'set'][::7] + [o for o in m if o[0] == 'rr'][::3]
            sel += [o for o in m if o[0] == 'tax'][::4]
            for fn in ('inc', 'zero', 'half', 'noneone', 'ij', 'swap01', 'd05'):
                sel.append(['te', '-', fn, None, None, False, False])
                sel.append(['te', '-', fn, [t.np - 1], None, False, True])
                sel.append(['te', '-', fn, None, [0], True, False])
            for axis in 'pf':
                sel += D01.tiny(t if axis == 'p' else t.T, axis)
            sel.append(['transpose', 'p'])
            out += sel
        return [o for o in out if ok(o, strings)]
    return ops


def tasks(tier):
    out = []
    for i, (kind, t) in enumerate(inits()):
        for rtype in TYPES:
            if kind in 'sb' and rtype == 'Sparse':
                continue
            for v in MUTABLE:
                if not applicable(t, rtype, v):
                    continue
                if v == 'fresh' or tier != 'quick':
                    for lv in ('te', 'ce', 'reads', 'writes'):
                        out.append([i, rtype, v, [lv]])
                elif v in ('transposed', 'freversed', 'extracted', 'zeroed', 'viewcopy') or rtype == 'Sparse':
                    for lv in ('te2', 'ce2', 'reads2', 'writes2'):
                        out.append([i, rtype, v, [lv]])
            for v in VIEWS:
                if applicable(t, rtype, v):
                    for lv in ('ce', 'reads') if tier != 'quick' else ('ce2', 'reads2'):
                        out.append([i, rtype, v, [lv]])
            if tier == 'quick':
                if (i, rtype) in ((0, 'Sparse'), (2, 'Sparse'), (0, 'List'), (2, 'Matrix'), (8, 'DataFrame')):
                    for k in range(6):
                        out.append([i, rtype, 'fresh', ['mut@%d/6' % k, 'next']])
            else:
                out.append([i, rtype, 'fresh', ['mut', 'mut', 'next']])
                out.append([i, rtype, 'fresh', ['mut', 'te']])
                out.append([i, rtype, 'fresh', ['mut', 'ce']])
                out.append([i, rtype, 'fresh', ['writes', 'next']])
    return out


def run_task(task, rec):
    i, rtype, variant, levels = task
    init = inits()[i][1]
    explore(rec, rtype, init, [alphabet(lv, rtype) for lv in levels], variant=variant)
