"""D02: the names of an axis are an injective partial labelling of its indices."""
import itertools
import numpy as np
from mc.model import Tab, Rejected, Unspecified
from mc.obs import TYPES, build, observe_full, names, check_names

PROPERTY = 'D02'
LEVEL = 'model_checking'
RULE = ('explicit-state search: states are all labellings of an axis of length 1..3 (thorough 1..4) by distinct names or default names, '
        'each with default names generated or not; transitions are every setNames call form (lists, dicts, None, single and multiple old '
        'identifiers by index, negative index, name, duplicates, unknown and non-string names) and the edits that move names; every '
        'transition is executed on the real object after every (other) transition into its source state up to the depth bound')
ASSUMPTIONS = ['names from a four letter alphabet', 'axis length at most 3 (quick) or 4 (thorough)']


def ok_names(ns):
    real = [x for x in ns if x is not None]
    return all(isinstance(x, str) for x in real) and len(set(real)) == len(real)


def index(ns, i):
    if isinstance(i, (bool, float)) or i is None:
        raise Rejected()
    if isinstance(i, (int, np.integer)):
        if not -len(ns) <= i < len(ns):
            raise Rejected()
        return int(i) % len(ns)
    if isinstance(i, str):
        if i not in ns:
            raise Rejected()
        return ns.index(i)
    raise Rejected()


def apply_model(ns, op):
    kind = op[0]
    ns = list(ns)
    if kind == 'all':
        arg = op[1]
        if arg is None:
            return [None] * len(ns)
        if isinstance(arg, dict):
            if len(arg) != len(ns):
                raise Rejected()
            out = [None] * len(ns)
            for k, v in arg.items():
                if k is None:
                    continue
                if not isinstance(k, str) or not isinstance(v, int) or not 0 <= v < len(ns) or out[v] is not None:
                    raise Rejected()
                out[v] = k
            return out
        if isinstance(arg, str):
            arg = [arg]
        if len(arg) != len(ns) or not ok_names(arg):
            raise Rejected()
        return list(arg)
    if kind == 'some':
        new, old = op[1], op[2]
        if not isinstance(new, (list, tuple)):
            new = [new]
        if not isinstance(old, list):
            old = [old]
        if len(new) != len(old):
            raise Rejected()
        idx = [index(ns, i) for i in old]
        for i, n in zip(idx, new):
            ns[i] = n
        if not ok_names(ns):
            raise Rejected()
        if len(set(idx)) != len(idx):
            raise Unspecified()
        return ns
    if kind == 'permute':
        return [ns[i] for i in op[1]]
    if kind == 'delete':
        if len(ns) == 1:
            raise Unspecified()
        del ns[index(ns, op[1])]
        return ns
    if kind == 'sortnames':
        if None in ns:
            raise Unspecified()
        return sorted(ns)
    if kind == 'insert':
        new = op[2]
        if new is not None and new in ns:
            raise Rejected()
        i = len(ns) if op[1] is None else op[1] % len(ns)
        ns.insert(i, new)
        return ns
    if kind in ('copy', 'transpose', 'look'):
        return ns
    raise AssertionError(op)


def apply_real(o, axis, op):
    """-> (object, axis)"""
    kind = op[0]
    ax = getattr(o, axis)
    if kind == 'all':
        arg = op[1]
        ax.setNames(dict(arg) if isinstance(arg, dict) else arg, useLog=False)
    elif kind == 'some':
        ax.setNames(op[1], oldIdentifiers=op[2], useLog=False)
    elif kind == 'permute':
        ax.permute(list(op[1]), useLog=False)
    elif kind == 'delete':
        ax.delete(op[1], useLog=False)
    elif kind == 'sortnames':
        ax.sort(useLog=False)
    elif kind == 'insert':
        other = len(o.features) if axis == 'points' else len(o.points)
        rows = [[9] * other] if axis == 'points' else [[9]] * other
        nm = {'pointNames' if axis == 'points' else 'featureNames': [op[2]]} if op[2] is not None else {}
        oth = o.features if axis == 'points' else o.points
        on = oth._getNamesNoGeneration()
        import nimble
        add = nimble.data(rows, returnType=o.getTypeString(), useLog=False, treatAsMissing=None, **nm)
        if on is not None:
            (add.features if axis == 'points' else add.points).setNames(list(oth.getNames()), useLog=False)
        if op[1] is None:
            ax.append(add, useLog=False)
        else:
            ax.insert(op[1], add, useLog=False)
    elif kind == 'copy':
        o = o.copy()
    elif kind == 'transpose':
        o.transpose(useLog=False)
        axis = 'features' if axis == 'points' else 'points'
    elif kind == 'look':
        for i in range(len(ax)):
            ax.getName(i)
        ax.getNames()
    return o, axis


ALPHA = ['a', 'b', 'c']


def labellings(n):
    out = []
    for t in itertools.product(ALPHA + [None], repeat=n):
        if ok_names(t):
            out.append(list(t))
    return out


def operations(n, full):
    ops = [('all', None), ('copy',), ('transpose',), ('look',), ('sortnames',)]
    vals = ['a', 'b', 'new', None]
    for t in itertools.product(vals, repeat=n):
        if full or len([x for x in t if x is None]) <= 1:
            ops.append(('all', list(t)))
    ops.append(('all', tuple(['new', 'c', 'd', 'e'][:n])))
    ops.append(('all', ['a'] * (n + 1)))
    ops.append(('all', ['a'] * (n - 1)))
    ops.append(('all', ['b', 5, 'c', 'd'][:n]))
    if n == 1:
        ops.append(('all', 'x'))
    # dicts
    ks = ['b', 'new', 'a', 'x'][:n]
    for p in itertools.permutations(range(n)):
        ops.append(('all', dict(zip(ks, p))))
    ops.append(('all', {'b': 0}))
    ops.append(('all', dict(zip(ks, [0] * n))))
    ops.append(('all', dict(zip(ks, range(1, n + 1)))))
    ops.append(('all', dict(zip(ks, [0.0] * n))))
    if n > 1:
        ops.append(('all', dict(zip([None, 'a', 'new', 'z'][:n], range(n)))))
    # one identifier
    ids = list(range(n)) + [-1, -n, n, -n - 1, 'a', 'b', 'c', 'zz', np.int64(0)]
    for i in ids:
        if isinstance(i, np.integer):
            continue
        for v in ['a', 'b', 'new', None]:
            if full or v != 'b':
                ops.append(('some', v, i))
        ops.append(('some', ['new'], [i]))
    ops.append(('some', 5, 0))
    ops.append(('some', [5], [0]))
    # two identifiers
    pairs = list(itertools.permutations(list(range(n)) + ['a', 'b'], 2)) + [(0, -1), (-1, 0), (0, 'zz'), (n, 0)]
    pv = [('a', 'b'), ('b', 'a'), ('new', 'new'), ('new', 'n2'), (None, None), ('a', 'new'), ('new', 'b'), (None, 'a'), ('new', None), ('new', 5)]
    for p in pairs:
        for v in (pv if full else pv[:5]):
            ops.append(('some', list(v), list(p)))
    ops.append(('some', ['new'], [0, 0]))
    ops.append(('some', ['new', 'n2'], [0]))
    if n == 3 and full:
        for v in (('b', 'c', 'a'), ('a', 'b', 'c'), ('x', 'y', 'x'), (None, None, None), ('c', None, 'a')):
            for p in itertools.permutations(range(3)):
                ops.append(('some', list(v), list(p)))
    ops.append(('permute', tuple(range(n))[::-1]))
    ops.append(('delete', 0))
    ops.append(('delete', -1))
    ops.append(('delete', 'a'))
    for i in (0, n - 1, None):
        for v in ('new', 'a', None):
            ops.append(('insert', i, v))
    return ops


def follow(n):
    """Reduced alphabet for the steps before the last."""
    out = [('all', None), ('look',), ('transpose',), ('copy',), ('permute', tuple(range(n))[::-1]), ('insert', 0, 'c'), ('insert', None, None),
           ('delete', 0), ('some', 'a', 0), ('some', None, 0), ('some', 'c', -1), ('all', ['b', None, 'a', 'c'][:n]),
           ('all', {k: i for i, k in enumerate(['c', 'a', 'b', 'd'][:n])})]
    if n > 1:
        out += [('some', ['b', 'a'], [0, 1]), ('some', [None, None], [0, 1]), ('some', ['new', 'c'], [1, 0]), ('some', ['new', 'new'], [0, 1]), ('some', [None, 'a'], [0, 1])]
    return out


def start(ns, axis, rtype):
    n = len(ns)
    if axis == 'points':
        t = Tab([[i + 1, 0] for i in range(n)], ns, ['f', 'g'])
    else:
        t = Tab([[i + 1 for i in range(n)], [0] * n], ['p', 'q'], ns)
    return build(t, rtype)


def tasks(tier):
    out = []
    for axis in ('points', 'features'):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for i in range(len(labellings(n))):
                out.append([axis, n, i, tier])
    return out


def run_task(task, rec):
    axis, n, i, tier = task
    ns = labellings(n)[i]
    types = TYPES if n == 1 else [TYPES[i % 4], TYPES[(i + 1) % 4]] if n == 2 else [TYPES[i % 4]]
    full = tier != 'quick'
    for rtype in types:
        first = [()] + [(op,) for op in follow(n)]
        if tier != 'quick' and n < 4:
            first += [(a, b) for a in follow(n) for b in follow(n)]
        for prefix in first:
            explore(ns, axis, rtype, prefix, full or n < 3 or not prefix, rec)


def explore(ns, axis, rtype, prefix, full, rec):
    # state after the prefix
    cur = list(ns)
    try:
        for op in prefix:
            if op[0] in ('permute',) and len(op[1]) != len(cur):
                return
            try:
                cur = apply_model(cur, op)
            except Rejected:
                pass
    except Unspecified:
        return
    rec.state((axis, rtype, tuple(cur), len(prefix)))
    rec.trace()
    for op in operations(len(cur), full):
        o, ax = start(ns, axis, rtype), axis
        for p in prefix:
            try:
                o, ax = apply_real(o, ax, p)
            except Exception:  # compared when the prefix was the last step
                pass
        before = list(cur)
        try:
            want = apply_model(before, op)
            rej = False
        except Rejected:
            want, rej = before, True
        except Unspecified:
            continue
        key = '%s %s %s %s :: %r' % (rtype, axis, ns, list(prefix), op)
        err = None
        try:
            o, ax = apply_real(o, ax, op)
        except Exception as e:  # noqa
            err = e
        rec.step()
        if rej:
            rec.rejected += 1
            if err is None:
                rec.violation(key, 'must be refused; names are %r' % (getattr(o, ax).getNames(),))
                continue
        elif err is not None:
            rec.violation(key, 'raised %s: %s; expected names %r' % (type(err).__name__, str(err)[:200], want))
            continue
        bad = check(o, ax, want)
        if bad:
            rec.violation(key, bad)
        rec.outcome(tuple(want))


def check(o, axis, want):
    ax = getattr(o, axis)
    try:
        got = list(check_names(ax))
        if got != want:
            return 'names %r, expected %r' % (got, want)
        n = len(want)
        for i in range(n):
            if ax.getName(i) != want[i] or ax.getName(i - n) != want[i]:
                return 'getName(%d) is %r, expected %r' % (i, ax.getName(i), want[i])
            if ax.getIndex(i - n) != i:
                return 'getIndex(%d) is %r' % (i - n, ax.getIndex(i - n))
        for x in ALPHA + ['new', 'n2', 'zz', 'x', 'y']:
            if n and ax.hasName(x) != (x in want):
                return 'hasName(%r) is %r, names %r' % (x, ax.hasName(x), want)
        oth = 'features' if axis == 'points' else 'points'
        ons = list(check_names(getattr(o, oth)))
        if axis == 'points' and ons != ['f', 'g'] or axis == 'features' and ons != ['p', 'q']:
            if ons not in (['f', 'g'], ['p', 'q']):
                return 'names of the other axis changed: %r' % ons
        # the name addresses the element at its index
        for i, x in enumerate(want):
            if x is None:
                continue
            a = (o[x, 0], o[i, 0]) if axis == 'points' else (o[0, x], o[0, i])
            if not (a[0] == a[1]):
                return 'name %r addresses %r, index %d holds %r' % (x, a[0], i, a[1])
        c = o.copy()
        if list(names(getattr(c, axis))) != want:
            return 'a copy has the names %r, expected %r' % (names(getattr(c, axis)), want)
    except Exception as e:  # noqa
        return 'reading the names raised %s: %s (expected %r)' % (type(e).__name__, str(e)[:200], want)
    return None
