"""D01: structural edits agree with the table model for every storage type."""
from mc.model import Tab
from mc.histories import explore
from mc.ops import selectors, spec_of
from mc.obs import TYPES
import itertools

PROPERTY = 'D01'
LEVEL = 'model_checking'
RULE = ('breadth-first search over operation histories from every initial table '
        'for each of the four storage types; each transition calls the real '
        'method and is compared with a list-of-rows model; a state is the '
        'observable table plus the last operation')
ASSUMPTIONS = ['elements from {0, 1, 2, 3, -1, 0.5, NaN} plus strings for the types '
               'that can hold them with the installed scipy (not Sparse)',
               'tables up to 3x3 initially']

NAN = float('nan')


def inits(tier):
    out = [
        ('n', Tab([[1, 0, 2], [0, 0, 3], [1, 0, 2]], ['a', 'b', 'c'], ['x', 'y', 'z'])),
        ('n', Tab([[0, 2], [0, 1], [3, 0]])),
        ('n', Tab([[2, 1, 0], [1, 1, 0]], None, ['x', 'y', 'z'])),
        ('n', Tab([[0, 1], [1, 0]], ['a', None], [None, 'x'])),
        ('n', Tab([[0, 0, 1]], ['a'], None)),
        ('n', Tab([[0], [1], [0]], ['a', 'b', 'c'], ['x'])),
        ('n', Tab([[0, 0], [0, 0]], ['a', 'b'], None)),
        ('n', Tab([[NAN, 0], [1, NAN], [0, -1]], None, ['x', 'y'])),
        ('n', Tab([[0]])),
        ('n', Tab([], [], ['x', 'y'], 2)),
        ('n', Tab([[], []], ['a', 'b'], [], 0)),
        ('s', Tab([['u', 0, 1.5], ['v', 2, 0], ['u', 0, 1.5]], ['a', 'b', 'c'], ['x', 'y', 'z'])),
        ('s', Tab([['q', 'p'], ['q', None], ['r', 'p']], None, ['x', 'y'])),
        ('s', Tab([['u', 'v'], [1, 0], ['u', 'v']])),
    ]
    return out


def inserts(t, axis, rich):
    """Tables to insert along the points of t (model orientation)."""
    w = t.nf
    base = [7, 0, 8, 9, 0, 5, 6, 4]
    row = (base * 2)[:w]
    row2 = ([0, 6] * 4)[:w]
    out = []
    free = [x for x in ('m', 'n') if x not in t.pn]
    out.append(Tab([row], None, None, w))
    if free:
        out.append(Tab([row], [free[0]], None, w))
    if not rich:
        return out
    out.append(Tab([row, row2], None, None, w))
    named = [x for x in t.pn if x is not None]
    if named:
        out.append(Tab([row], [named[0]], None, w))      # shared name
    if len(free) == 2 and w:
        out.append(Tab([row, row2], [free[0], None], t.fn, w))
    if w and all(x is not None for x in t.fn):
        out.append(Tab([row, row2], None, list(reversed(t.fn)), w))
        out.append(Tab([row], None, ['k'] + t.fn[1:], w))
        if w > 1:
            out.append(Tab([row], None, [None] + t.fn[1:], w))
            out.append(Tab([row], None, [t.fn[1], None] + t.fn[2:], w))
    elif w and any(x is not None for x in t.fn):
        out.append(Tab([row], None, ['k%d' % i if x is None else x for i, x in enumerate(t.fn)], w))
        out.append(Tab([row], None, ['k%d' % i for i in range(w)], w))
    elif w:
        out.append(Tab([row], None, ['k%d' % i for i in range(w)], w))
    out.append(Tab([row + [1]], None, None, w + 1))
    out.append(Tab([], [], None, w))
    return out


def sp(t, axis, rtype=None):
    s = spec_of(t if axis == 'p' else t.T)
    if rtype:
        s['type'] = rtype
    return s


def tiny(t, axis):
    n, w = t.shape
    out = []
    if n:
        out.append(['extract', axis, ['id', n - 1]])
        if w:
            out.append(['insert', axis, 0, sp(inserts(t, axis, False)[0], axis, 'Matrix')])
            out.append(['replace', axis, sp(Tab([[5, 0, 4, 0, 3, 0, 2][:w]]), axis), [0]])
    if n > 1:
        out.append(['permute', axis, list(range(1, n)) + [0]])
        if w:
            out.append(['sort', axis, 0, True])
    out.append(['setall', axis, ['k%d' % i for i in range(n)]])
    return out


def alphabet(level, rtype):
    others = [x for x in TYPES if x != rtype]

    def ops(tab):
        out = []
        for axis in ('p', 'f'):
            t = tab if axis == 'p' else tab.T
            n, w = t.shape
            if level == 'tiny':
                out += tiny(t, axis)
                continue
            if n > 6 or w > 6:
                continue
            sels = selectors(t.pn, t.fn, n, w)
            if level == 'full':
                for k in ('copy', 'extract', 'delete', 'retain'):
                    out += [[k, axis, s] for s in sels]
                out += [['count', axis, s] for s in sels if s[0] in ('fn', 'q', 'fnlim')]
            elif level == 'mid':
                short = []
                for s in sels:
                    if s[0] == 'ids' and len(s[1]) in (1, 2) and s[1] != [0, 0]:
                        short.append(s)
                    elif s[0] == 'range' and s[2] is None:
                        short.append(s)
                    elif s[0] in ('fn', 'fnlim', 'q', 'num'):
                        short.append(s)
                out += [['extract', axis, s] for s in short if s[0] in ('ids', 'fnlim', 'range')]
                out += [['copy', axis, s] for s in short if s[0] in ('ids', 'fn')]
                out += [['delete', axis, s] for s in short if s[0] in ('fn', 'q', 'num')]
                out += [['retain', axis, s] for s in short if s[0] in ('ids', 'q')]
            else:
                out += [['extract', axis, ['id', i]] for i in range(n)]
                if n > 1:
                    out += [['delete', axis, ['fn', 'anyzero']],
                            ['retain', axis, ['ids', list(range(n))[::-1]]],
                            ['copy', axis, ['ids', [n - 1, 0]]]]
            rich = level == 'full'
            bys = [None, 'fn:first', 'cmp:last'] + list(range(w)) + [x for x in t.fn if x is not None]
            if w > 1:
                bys += [[0, w - 1], [w - 1, 0]]
            if rich:
                bys += [[w], 'nosuch', -1]
            if level == 'core':
                bys = bys[:2] + list(range(w))[-1:]
            for by in bys:
                for rev in ((False, True) if level != 'core' else (True,)):
                    out.append(['sort', axis, by, rev])
            if n <= 3:
                perms = list(itertools.permutations(range(n)))
                if level == 'core':
                    perms = perms[1:4:2]
                for perm in perms:
                    out.append(['permute', axis, list(perm)])
                if n and rich:
                    if all(x is not None for x in t.pn):
                        out.append(['permute', axis, list(reversed(t.pn))])
                    out.append(['permute', axis, list(range(n - 1))])
                    out.append(['permute', axis, [0] * n])
                    out.append(['permute', axis, list(range(n)) + [0]])
            elif level != 'core':
                out.append(['permute', axis, list(range(n))[::-1]])
                out.append(['permute', axis, list(range(1, n)) + [0]])
            ins = inserts(t, axis, level != 'core')
            for k, it in enumerate(ins):
                typ = others[(k + n) % len(others)] if k % 2 else None
                out.append(['append', axis, sp(it, axis, typ)])
                if n and (level != 'core' or k == 0):
                    for before in ([0, n - 1, n, -1] if rich else [0, n - 1]):
                        out.append(['insert', axis, before, sp(it, axis, typ)])
            if rich and n:
                first = ins[0]
                for nm in t.pn[:2]:
                    if nm is not None:
                        out.append(['insert', axis, nm, sp(first, axis)])
                out.append(['insert', axis, n + 1, sp(first, axis)])
                out.append(['insert', axis, 'nosuch', sp(first, axis)])
            if n and w:
                row = [9, 0, 8, 0, 7, 6, 5][:w]
                row2 = [0, 0, 4, 1, 0, 0, 2][:w]
                for i in range(n):
                    out.append(['replace', axis, sp(Tab([row]), axis), [i]])
                if n > 1:
                    out.append(['replace', axis, sp(Tab([row, row2]), axis), [n - 1, 0]])
                if rich:
                    out.append(['replace', axis, sp(Tab([row] * n), axis, others[0]), None])
                    out.append(['replace', axis, sp(Tab([row + [1]]), axis), [0]])
                    out.append(['replace', axis, sp(Tab([row]), axis), [0, n - 1]] if n > 1 else
                               ['replace', axis, sp(Tab([row]), axis), [3]])
                    if t.pn[-1] is not None and n > 1:
                        out.append(['replace', axis, sp(Tab([row2], [t.pn[-1]]), axis, others[1]), None])
                        out.append(['replace', axis, sp(Tab([row2]), axis), [t.pn[-1]]])
                        out.append(['replace', axis, sp(Tab([row2], ['nosuch']), axis), None])
            if n and w and n * w <= 16:
                reps = [(1, True), (2, True), (2, False), (3, False), (3, True)] if level != 'core' else [(2, True)]
                out += [['repeat', axis, k, e] for k, e in reps]
                if rich:
                    out.append(['repeat', axis, 0, True])
                out.append(['unique', axis])
            if level != 'core':
                if n:
                    out.append(['setname', axis, 0, 'new'])
                    out.append(['setname', axis, n - 1, None])
                out.append(['setall', axis, ['k%d' % i for i in range(n)]])
                out.append(['setall', axis, None])
        out.append(['transpose', 'p'])
        return out
    return ops


def tasks(tier):
    out = []
    for i, (kind, _) in enumerate(inits(tier)):
        for rtype in TYPES:
            if kind == 's' and rtype == 'Sparse':
                continue
            if tier == 'quick':
                out.append([i, rtype, ['full', 'core']])
                out.append([i, rtype, ['core', 'core']])
                if i in (0, 3, 7, 11):
                    out.append([i, rtype, ['tiny', 'core', 'tiny']])
            else:
                out.append([i, rtype, ['full', 'full']])
                out.append([i, rtype, ['mid', 'mid', 'mid']])
                out.append([i, rtype, ['core', 'core', 'core', 'core']])
    return out


def run_task(task, rec):
    i, rtype, levels = task
    init = inits(None)[i][1]
    explore(rec, rtype, init, [alphabet(lv, rtype) for lv in levels])
