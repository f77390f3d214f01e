"""D09: operations that reorganise the table."""
from mc.model import Tab
from mc.histories import explore
from mc.obs import TYPES
from mc import reshape, elem  # noqa: F401  (registers the operations)
from mc.variants import MUTABLE, VIEWS, applicable
from mc.checks import D01

PROPERTY = 'D09'
LEVEL = 'model_checking'
RULE = ('every reshaping call of the alphabet (all dimensions, orders, identifier forms, feature subsets and name choices) on every '
        'initial table reached through every hidden-state variant, after structural edits, and after another reshaping call (depth 2); '
        'state = observable table plus last operation')
ASSUMPTIONS = ['tables up to 4x4, cells {0,1,2,3,NaN} and short strings; no strings in Sparse objects',
               'the order of the features made by replaceFeatureWithBinaryFeatures is not part of the property',
               'missing values in the shared features of combineByExpandingFeatures and in one-hot encoding are not explored',
               '"1" and "1.0" in generated names are the same']
NAN = float('nan')
INF = float('inf')


def inits():
    return [
        ('n', Tab([[1, 0, 2], [0, 3, 0]], ['a', 'b'], ['x', 'y', 'z'])),
        ('n', Tab([[0, 1], [2, 0], [1, 1]])),
        ('n', Tab([[0, 1, 5], [0, 2, 0], [1, 1, 7]], ['a', None, 'c'], ['x', None, 'z'])),
        ('n', Tab([[1, 0, 4, 5], [1, 2, 0, 6], [0, 2, 8, 0], [2, 0, 3, 3]], None, ['w', 'x', 'y', 'z'])),
        ('n', Tab([[7, 0, 1], [0, 0, 2], [8, 1, 1]], ['a', 'b', 'c'], [None, 'y', None])),
        ('n', Tab([[NAN, 1], [0, NAN], [2, 1]], ['a', 'b', 'c'], ['x', 'y'])),
        ('n', Tab([[2, 0, 1, 1]], ['a'], None)),
        ('n', Tab([[1], [0], [1]], ['a', 'b', None], ['x'])),
        ('n', Tab([[1, 0, 2, 0]], ['Flattened'], ['a | x', 'a | y', 'b | x', 'b | y'])),
        ('n', Tab([[1], [0], [2], [0]], ['a | x', 'b | x', '_PT#0 | y', 'b | y'], None)),
        ('n', Tab([], None, ['x', 'y'], 2)),
        ('n', Tab([[1, 2, 0.5, 0, 3, 4]], None, None)),
        ('n', Tab([[1, 0.5], [0, 3], [2.5, 4]], None, ['x', 'y'])),
        ('s', Tab([['u', 'p', 0, 1], ['u', 'q', 1, 0], ['v', 'p', 2, 2], ['w', 'q', 0, 3]],
                  ['a', 'b', 'c', 'd'], ['k', 'n', 'y', 'z'])),
        ('s', Tab([['u-v', 1, 'x'], ['w-', 0, 'k']], ['a', None], ['p', None, 'q'])),
        ('s', Tab([['ab-c,d', 0], ['xy-z,w', 2]], None, ['p', 'q'])),
        ('s', Tab([['ab--c, d', 0], ['--, ', 2]], None, ['p', 'q'])),
        ('n', Tab([[INF, 1], [-INF, 0], [0.5, 2], [INF, 3], [NAN, 4]], None, ['x', 'y'])),
        ('s', Tab([[1, '1', 3], [1, 1, 4], [0, '1', 5]], None, ['k', 'n', 'v'])),
        ('s', Tab([[3, 'u', 'x'], [4, 'v', 'x'], [5, 'u', 'w']], ['a', 'b', 'c'], None)),
    ]


def ids(t, full):
    if t.nf > 5:
        return [[0], [t.nf - 1, 0], [-1]]
    out = [[j] for j in range(t.nf)]
    for j in range(t.nf):
        for k in range(t.nf):
            if j != k:
                out.append([j, k])
    if t.nf > 2:
        out += [[0, 1, 2], [2, 0, 1]]
    out.append([-1])
    nm = [j for j, x in enumerate(t.fn) if x is not None]
    out += [[t.fn[j]] for j in nm]
    if len(nm) > 1:
        out += [[t.fn[nm[1]], t.fn[nm[0]]], [t.fn[nm[0]], nm[1]]]
    out += [[t.nf], ['nope']]
    return out


def one(t):
    if t.nf > 5:
        return [0, t.nf - 1] + [x for x in t.fn if x is not None][:1]
    return list(range(t.nf)) + [-1, t.nf, 'nope'] + [x for x in t.fn if x is not None]


def ops_all(t, full=True):
    out = [['flat', '-', 'point'], ['flat', '-', 'feature']]
    n = t.np * t.nf
    dims = [(p, n // p) for p in range(1, n + 1) if n % p == 0] or [(0, 0)]
    for d in dims + [(n + 1, 1)]:
        for o in ('point', 'feature'):
            out.append(['unflat', '-', list(d), o])
    for x in ids(t, full):
        out.append(['split', '-', x, 'name', 'value'])
        if full:
            real = [f for f in t.fn if f is not None]
            out += [['split', '-', x, f, 'value'] for f in real[:1] + real[-1:]]
            out.append(['split', '-', x, 'name', 'name'])
    for a in one(t):
        for v in ids(t, False):
            for m in (False, True):
                out.append(['comb', '-', a, v, m])
        for v in range(t.nf):
            out.append(['comb', '-', a, v, False])
    for a in one(t):
        out += [['onehot', '-', a], ['toint', '-', a]]
        for c in (False, True):
            out.append(['group', '-', a, c])
    for x in ids(t, False):
        for c in (False, True):
            out.append(['group', '-', x, c])
    for a in one(t):
        for rule, k in (('-', 2), (1, 2), (-1, 2), ([1, 2], 3), (['-', ','], 3), (['--', ', '], 3), ('--', 2), (['-', 4], 3), ([1, '-'], 3), ('f:half', 2),
                        ('f:num', 2), ('f:three', 3)):
            out.append(['parse', '-', a, rule, ['n%d' % i for i in range(k)]])
            if full:
                out.append(['parse', '-', a, rule, ['n%d' % i for i in range(k + 1)]])
                real = [f for f in t.fn if f is not None]
                for f in real[:1] + real[-1:]:
                    out.append(['parse', '-', a, rule, ['n', f, 'm'][:k]])
    return out


def some(t):
    """A smaller set, used as first step of a history."""
    out = [['flat', '-', 'point'], ['flat', '-', 'feature']]
    if t.nf:
        out += [['toint', '-', 0], ['onehot', '-', 0], ['onehot', '-', -1]]
        if t.nf > 1:
            out += [['split', '-', [0, 1], 'name', 'value'], ['split', '-', [t.nf - 1, 0], 'name', 'value'],
                    ['comb', '-', 1, [0], False], ['comb', '-', 0, [t.nf - 1], False]]
    n = t.np * t.nf
    if 1 in t.shape:
        out += [['unflat', '-', [p, n // p], 'point'] for p in range(1, n + 1) if n % p == 0]
    out += [['parse', '-', 0, 'f:three', ['n0', 'n1', 'n2']]]
    return out


def strings_ok(rtype):
    return rtype != 'Sparse'


def ok(op, t, rtype):
    """Nothing that would put a string in a Sparse object."""
    if rtype != 'Sparse':
        return True
    if op[0] == 'split':
        for x in op[2]:
            j = t.fn.index(x) if x in t.fn else x
            if isinstance(j, int) and -t.nf <= j < t.nf and t.fn[j] is not None:
                return False
    return True


def alphabet(level, rtype):
    def ops(t):
        out = []
        if level == 'all':
            out = ops_all(t)
        if level == 'less':
            out = ops_all(t, False)
        if level == 'some':
            out = some(t)
        if level == 'edit':
            for axis in 'pf':
                out += D01.tiny(t if axis == 'p' else t.T, axis)
            out.append(['transpose', 'p'])
        return [o for o in out if ok(o, t, rtype)]
    return ops


def tasks(tier):
    out = []
    for i, (kind, t) in enumerate(inits()):
        for rtype in TYPES:
            if kind == 's' and rtype == 'Sparse':
                continue
            for v in MUTABLE:
                if applicable(t, rtype, v):
                    out.append([i, rtype, v, ['all' if v == 'fresh' or tier != 'quick' else 'less']])
            for v in VIEWS:
                if applicable(t, rtype, v):
                    out.append([i, rtype, v, ['views']])
            if tier != 'quick' or i in (1, 2, 4, 6, 8, 12):
                out.append([i, rtype, 'fresh', ['some', 'less']])
            if tier != 'quick' or i in (4,):
                out.append([i, rtype, 'fresh', ['edit', 'less']])
            if tier != 'quick':
                out.append([i, rtype, 'fresh', ['edit', 'some', 'less']])
                out.append([i, rtype, 'fresh', ['some', 'some', 'less']])
                for v in ('transposed', 'extracted', 'sorted', 'zeroed'):
                    if applicable(t, rtype, v):
                        out.append([i, rtype, v, ['some', 'less']])
    return out


def run_task(task, rec):
    i, rtype, variant, levels = task
    init = inits()[i][1]
    if levels == ['views']:
        explore(rec, rtype, init, [lambda t: [o for o in ops_all(t) if o[0] == 'group']], variant=variant)
        return
    explore(rec, rtype, init, [alphabet(lv, rtype) for lv in levels], variant=variant)
